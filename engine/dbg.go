package main

import (
	"fmt"
	"os"
)

// firstDiff descends through abbreviations to the first structural difference.
func firstDiff(a, b *Term, depth int) {
	if a == b || depth > 4000 {
		return
	}
	if d, ok := abbrevDef[a]; ok {
		a = d
	}
	if d, ok := abbrevDef[b]; ok {
		b = d
	}
	if a.Op == b.Op && len(a.Args) == len(b.Args) && a.Name == b.Name {
		n, last := 0, 0
		for i := range a.Args {
			if a.Args[i] != b.Args[i] {
				n++
				last = i
			}
		}
		if n == 1 {
			firstDiff(a.Args[last], b.Args[last], depth+1)
			return
		}
		if n > 1 {
			for i := range a.Args {
				if a.Args[i] != b.Args[i] && a.Args[i].Op == b.Args[i].Op && len(a.Args[i].Args) > 0 {
					firstDiff(a.Args[i], b.Args[i], depth+1)
					return
				}
			}
		}
	}
	fmt.Fprintln(os.Stderr, "DIFF\n  code", clip(a.String(), 3000), "\n  spec", clip(b.String(), 3000))
}
