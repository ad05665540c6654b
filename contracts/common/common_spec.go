package common

// ---- the active configuration

func SpecConfig() Config { return *cfg }
func SpecConfigured() bool { return cfg != nil }

func specSame(p Proxy, g, v, r string) bool { return p.Group == g && p.Version == v && p.Resource == r }

// SpecKind: k is the kind configured for the type, "" if there is none.
func SpecKind(g, v, r, k string) bool {
	return vAll(func(i int) bool {
		return vImp(0 <= i && i < len(cfg.Proxies) && specSame(cfg.Proxies[i], g, v, r) && vAll(func(j int) bool { return vImp(0 <= j && j < i, !specSame(cfg.Proxies[j], g, v, r)) }), k == cfg.Proxies[i].ListKind)
	}) && vImp(vAll(func(j int) bool { return vImp(0 <= j && j < len(cfg.Proxies), !specSame(cfg.Proxies[j], g, v, r)) }), k == "")
}

//@ func GetGVRKind(g, v, r string) (k string)
//@ requires cfg != nil
//@ loop(i int) vAll(func(j int) bool { return vImp(0 <= j && j < i, !specSame(cfg.Proxies[j], g, v, r)) })
//@ ensures[C04,C13] the configured kind: SpecKind(g, v, r, k)
//@ nopanic[C04]
