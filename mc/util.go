package main

import (
	"sort"
	"strconv"
)

func quote(s string) string { return strconv.Quote(s) }
func itoa(i int64) string   { return strconv.FormatInt(i, 10) }

func sortLex(l *Lex) { sort.Sort(l) }
