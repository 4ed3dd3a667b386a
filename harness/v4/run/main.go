// Command run replays harnesses against the compiled code.
package main

import "verif/h/sym"

func main() { sym.Main(reg) }
