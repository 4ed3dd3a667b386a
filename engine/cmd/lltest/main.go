package main

import (
	"fmt"
	"os"
	"verif/engine/llvm"
)

func main() {
	b, _ := os.ReadFile(os.Args[1])
	m, err := llvm.Parse(string(b))
	if err != nil {
		fmt.Println(err)
		return
	}
	fmt.Println(len(m.Funcs), len(m.Globals))
	for n, f := range m.Funcs {
		fmt.Println(n, len(f.Blocks), f.NRegs)
	}
}
