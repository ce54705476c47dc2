package check

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"verifsim/sim"
)

// A known finding is a genuine defect that is recorded and not repaired: a line
//
//	open: property=<id> kind=<violation kind> match=<regexp over the message> :: <what fails>
//
// of known-findings.txt. Lines that start with "fixed:" suppress nothing.
type known struct {
	kind, what string
	re         *regexp.Regexp
	seen       int
}

func loadKnown(root, prop string) ([]*known, error) {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var rv []*known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "open: ") {
			continue
		}
		head, what, ok := strings.Cut(strings.TrimPrefix(l, "open: "), " :: ")
		p := strings.SplitN(head, " ", 3)
		if !ok || len(p) != 3 || !strings.HasPrefix(p[0], "property=") || !strings.HasPrefix(p[1], "kind=") || !strings.HasPrefix(p[2], "match=") {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		if p[0] != "property="+prop {
			continue
		}
		re, err := regexp.Compile(strings.TrimPrefix(p[2], "match="))
		if err != nil {
			return nil, err
		}
		rv = append(rv, &known{kind: strings.TrimPrefix(p[1], "kind="), re: re, what: what})
	}
	return rv, sc.Err()
}

// unknown drops the violations that are known findings.
func (c *coord) unknown(vs []sim.Violation) []sim.Violation {
	var rv []sim.Violation
next:
	for _, v := range vs {
		for _, k := range c.known {
			if k.kind == v.Kind && k.re.MatchString(v.Msg) {
				k.seen++
				continue next
			}
		}
		rv = append(rv, v)
	}
	return rv
}
