module verif/h/v5

go 1.22.0

require (
	github.com/Masterminds/squirrel v1.4.0
	github.com/antlr/antlr4 v0.0.0-20200712162734-eb1adaa8a7a6
	github.com/yaacov/tree-search-language/v5 v5.0.0
	go.mongodb.org/mongo-driver v1.5.1
	verif/h/sym v0.0.0
)

require (
	github.com/fatih/color v1.9.0
	github.com/go-stack/stack v1.8.0 // indirect
	github.com/hokaccha/go-prettyjson v0.0.0-20190818114111-108c894c2c0e
	github.com/lann/builder v0.0.0-20180802200727-47ae307949d0 // indirect
	github.com/lann/ps v0.0.0-20150810152359-62de8c46ede0 // indirect
	github.com/mattn/go-colorable v0.1.7
	github.com/mattn/go-isatty v0.0.12
	gopkg.in/yaml.v2 v2.3.0
)

replace github.com/yaacov/tree-search-language/v5 => /repo/v5

replace verif/h/sym => ../sym
