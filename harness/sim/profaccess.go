package sim

import (
	"github.com/continusec/verifiabledatastructures/pb"
)

var allPerms = []pb.Permission{
	pb.Permission_PERM_ALL_PERMISSIONS, pb.Permission_PERM_LOG_RAW_ADD, pb.Permission_PERM_LOG_READ_ENTRY,
	pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_LOG_PROVE_INCLUSION, pb.Permission_PERM_MAP_SET_VALUE,
	pb.Permission_PERM_MAP_GET_VALUE, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY, pb.Permission_PERM_MAP_MUTATION_READ_HASH,
}

func (g *Gen) fields(restrict int) []string {
	if !g.Pct(restrict) {
		return []string{"*"}
	}
	return Pick(g, []string{"name"}, []string{"name", "num"}, nil, []string{"nested"}, []string{"none", "name"}, []string{"nosuch"}, []string{"num", "nested", "name", "none"})
}

// Policy draws an access policy for the objects of the configuration, and a key for each client.
// open: the share of lines that grant everything; restrict: the share of lines that limit fields.
func (g *Gen) Policy(c *Cfg, open, restrict int) {
	accs := []string{}
	seen := map[string]bool{}
	names := []string{"*", "*", "l*", "m*", "?0", "[lm]0", "x", "", "[", "l0*", "*0", "[^l]*"}
	for _, o := range c.Objs {
		if !seen[o.Acc] {
			seen[o.Acc] = true
			accs = append(accs, o.Acc)
		}
		names = append(names, o.Name, o.Name)
	}
	keys := []string{"k1", "k2", "secret-key", "*", ""}
	for _, a := range accs {
		// An account may be listed more than once; one may be missing.
		for i := 0; i < 1+g.N(2); i++ {
			ra := &pb.ResourceAccount{Id: a}
			for j := 0; j < 1+g.N(5); j++ {
				p := &pb.AccessPolicy{NameMatch: names[g.N(len(names))], ApiKey: keys[g.N(len(keys))], AllowedFields: g.fields(restrict)}
				if g.Pct(open) {
					p.NameMatch = "*"
					p.Permissions = []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}
				} else {
					for n := 1 + g.N(4); n > 0; n-- {
						p.Permissions = append(p.Permissions, allPerms[g.N(len(allPerms))])
					}
				}
				ra.Policy = append(ra.Policy, p)
			}
			c.Policy = append(c.Policy, ra)
		}
	}
	if g.Pct(30) {
		c.Policy = append(c.Policy, &pb.ResourceAccount{Id: "999", Policy: []*pb.AccessPolicy{{NameMatch: "*", ApiKey: "*", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}}})
	}
	for i := 0; i < c.Clients; i++ {
		c.ClientKeys = append(c.ClientKeys, Pick(g, "k1", "k2", "secret-key", "*", "", "K1", "k1x", "nosuch"))
	}
}

func init() {
	Profiles["P23"] = func(g *Gen) Cfg {
		c := g.Base()
		c.Clients = 2 + g.N(3)
		c.AddLogs(1 + g.N(2))
		c.AddMaps(1 + g.N(2))
		c.Weights = Ops(logOps, mapOps, map[string]int{"bad": 8 + g.N(20), "badrest": 8 + g.N(20)})
		c.Hostile = g.Pct(50)
		switch g.N(5) {
		case 0, 1:
			g.Storages(&c)
			c.ReadOnly = g.Pct(30)
		case 2, 3:
			c.Storage = Pick(g, "mem", "kv", "bolt")
			g.Batched(&c)
		default:
			g.Crashes(&c)
		}
		if g.Pct(15) {
			c.JSON = true
			g.Policy(&c, 40, 10)
		}
		g.RESTClients(&c, false)
		if g.Pct(15) {
			g.NetFaults(&c)
		}
		return c
	}
	Profiles["P16"] = func(g *Gen) Cfg {
		c := g.Base()
		c.Clients = 2 + g.N(3)
		switch g.N(4) {
		case 0:
			c.AddLogs(1)
			c.AddMaps(1)
		case 1:
			c.AddMaps(1)
		case 2:
			c.Objs = append(c.Objs, Obj{"1", "l0", false}, Obj{"2", "l0", false}, Obj{"1", "l0", true})
		default:
			c.AddLogs(2)
			c.AddMaps(2)
			c.Objs = append(c.Objs, Obj{"11", "m0", true})
		}
		c.JSON = g.Pct(60)
		c.Weights = Ops(logOps, mapOps)
		g.Policy(&c, 25, 25)
		if g.Pct(40) {
			// one client that may do everything, so that there is something to see
			c.ClientKeys[0] = "root"
			for _, a := range []string{"1", "2", "11"} {
				c.Policy = append(c.Policy, &pb.ResourceAccount{Id: a, Policy: []*pb.AccessPolicy{{NameMatch: "*", ApiKey: "root", AllowedFields: []string{"*"}, Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}}})
			}
		}
		g.Storages(&c)
		if g.Pct(25) {
			g.Batched(&c)
		}
		g.RESTClients(&c, false)
		if g.Pct(20) {
			g.NetFaults(&c)
		}
		return c
	}
	Profiles["P17"] = func(g *Gen) Cfg {
		c := g.Base()
		c.Clients = 2 + g.N(3)
		c.AddLogs(1)
		if g.Pct(80) {
			c.AddMaps(1)
		}
		c.JSON = true
		c.Weights = Ops(logOps, mapOps, map[string]int{"fetch": 8, "get": 4})
		// A writer that sees everything, readers that do not.
		all := []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}
		lines := []*pb.AccessPolicy{{NameMatch: "*", ApiKey: "root", AllowedFields: []string{"*"}, Permissions: all}}
		for _, k := range []string{"k1", "k2", "*"} {
			if g.Pct(30) {
				lines = append(lines, &pb.AccessPolicy{NameMatch: "*", ApiKey: k, AllowedFields: g.fields(60), Permissions: []pb.Permission{Pick(g, pb.Permission_PERM_MAP_GET_VALUE, pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY)}})
			}
			lines = append(lines, &pb.AccessPolicy{NameMatch: "*", ApiKey: k, AllowedFields: g.fields(85), Permissions: all})
		}
		c.Policy = []*pb.ResourceAccount{{Id: "1", Policy: lines}}
		for i := 0; i < c.Clients; i++ {
			c.ClientKeys = append(c.ClientKeys, Pick(g, "root", "k1", "k2", "nosuch"))
		}
		switch g.N(4) {
		case 0, 1:
			g.Storages(&c)
		case 2:
			g.Batched(&c)
		default:
			g.Crashes(&c)
		}
		g.RESTClients(&c, false)
		return c
	}
}
