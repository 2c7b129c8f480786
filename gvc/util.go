package main

import "sort"

func sortStrings(s []string) { sort.Strings(s) }

func sortedTermKeys(m map[string]*Term) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
