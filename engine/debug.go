package main

import (
	"fmt"
	"strings"
)

// show prints a term down to a depth.
func show(t *Term, d int) string {
	if t.isConst() {
		return t.big().Text(16)
	}
	if len(t.args) == 0 {
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, show(a, d-1))
	}
	return fmt.Sprintf("%v%s#%d[%d](%s)", t.op, t.name, t.id, t.w, strings.Join(as, " "))
}
