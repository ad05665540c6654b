package utils

// ---- C18 subset test

//@ func IsSubsetOf(sub map[string]string, parent map[string]string) (r bool)
//@ ensures[C18] exactly when every entry is in parent: vIff(r, specSubset(sub, parent))
//@ loop(seen vSet[string]) vAll(func(k string) bool { return vImp(seen[k], vHas(parent, k) && parent[k] == sub[k]) })
//@ nopanic[C18]

// specSubset: every entry of sub is an entry of parent with the same value.
func specSubset(sub, parent map[string]string) bool {
	return vAll(func(k string) bool { return vImp(vHas(sub, k), vHas(parent, k) && parent[k] == sub[k]) })
}
