//go:build stresshook

package main

import "C"
