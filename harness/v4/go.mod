module verif/h/v4

go 1.22.0

require (
	github.com/antlr/antlr4 v0.0.0-20190518164840-edae2a1c9b4b
	github.com/yaacov/tree-search-language/v4 v4.0.0
	go.mongodb.org/mongo-driver v1.5.1
	verif/h/sym v0.0.0
)

require (
	github.com/Masterminds/squirrel v1.1.0 // indirect
	github.com/fatih/color v1.7.0
	github.com/go-stack/stack v1.8.0 // indirect
	github.com/hokaccha/go-prettyjson v0.0.0-20190818114111-108c894c2c0e
	github.com/lann/builder v0.0.0-20180802200727-47ae307949d0 // indirect
	github.com/lann/ps v0.0.0-20150810152359-62de8c46ede0 // indirect
	github.com/mattn/go-colorable v0.1.2
	github.com/mattn/go-isatty v0.0.9
	gopkg.in/yaml.v2 v2.2.8
)

replace github.com/yaacov/tree-search-language/v4 => /repo/v4

replace verif/h/sym => ../sym
