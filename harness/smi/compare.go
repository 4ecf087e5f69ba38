package smi

import (
	"sort"
	"strings"

	"verif/oas"
)

// Compare lists where an AST differs from the one expected.
func Compare(d *Doc, want, gotv interface{}) []string {
	want = Norm(want)
	got, _ := gotv.(map[string]interface{})
	if v, _ := got["smithy"].(string); strings.HasPrefix(v, "2") {
		got["smithy"] = "2"
	}
	for id := range d.Synth {
		if sh, ok := got["shapes"].(M)[id].(M); ok {
			if t, ok := sh["traits"].(M); ok {
				delete(t, "smithy.api#documentation")
				if len(t) == 0 {
					delete(sh, "traits")
				}
			}
		}
	}
	if _, ok := want.(M)["shapes"]; !ok {
		want.(M)["shapes"] = M{}
	}
	if _, ok := got["shapes"]; !ok {
		got["shapes"] = M{}
	}
	var diffs []string
	oas.Diff("", want, got, nil, &diffs)
	sort.Strings(diffs)
	return diffs
}
