package sim

import (
	"bytes"
	"time"
)

// TxnProfile draws a run of transactions.
func TxnProfile(g *Gen, storage string) (Cfg, TxnCfg) {
	c := g.Base()
	c.Storage, c.Objs, c.Trans, c.ClientKeys, c.Policy, c.Weights = storage, nil, nil, nil, nil, nil
	c.Batch, c.Lag, c.Skew, c.FineYield = false, false, false, false
	c.StErr, c.StErrIn, c.NetDrop, c.NetDup, c.NetLost, c.NetDelay, c.NetEarly, c.NetGarble = 0, 0, 0, 0, 0, 0, 0, 0
	c.DiskReadErr, c.StDirty = 0, false
	c.Crash, c.CrashPower, c.DiskWriteErr, c.DiskSyncErr, c.DiskOpenErr, c.DiskFull, c.PgErr, c.PgDrop, c.Cancel = 0, false, 0, 0, 0, 0, 0, 0, 0
	c.BatchTimeout = time.Second
	c.Nodes = 1
	c.Clients = Pick(g, 2, 1, 3, 4, 6)
	t := TxnCfg{Phases: Pick(g, 2, 1, 3, 4), Per: Pick(g, 4, 2, 7, 12), Ops: Pick(g, 4, 1, 8, 12), ReadPct: Pick(g, 40, 0, 70), FailPct: Pick(g, 0, 10, 30)}
	if g.Pct(40) {
		t.Pause = Pick(g, 5, 20)
	}
	t.Big = g.Pct(25)
	// Namespaces that resemble each other.
	long := bytes.Repeat([]byte{0xa7}, 32)
	ns := [][]byte{
		long, append(bytes.Repeat([]byte{0xa7}, 31), 0xa6), append(bytes.Repeat([]byte{0xa7}, 16), bytes.Repeat([]byte{0}, 16)...),
		long[:31], long[:16], {1}, {1, 0}, {0, 1}, {0x10}, []byte("a"), []byte("A"), []byte("a/b"), []byte("a_b"), []byte("\"x"), {0xff, 0xfe}, []byte("..."),
	}
	for i, n := 0, Pick(g, 1, 2, 3, 5); i < n; i++ {
		k := g.N(len(ns))
		t.NS = append(t.NS, ns[k])
		ns = append(ns[:k:k], ns[k+1:]...)
	}
	ks := [][]byte{
		[]byte("k"), []byte("k\x00"), []byte("kk"), {0}, {0, 0}, {0xff}, {0xff, 0xff, 0xff}, []byte("versio"), []byte("version\x00"),
		bytes.Repeat([]byte{7}, 40), append(bytes.Repeat([]byte{7}, 39), 8), []byte("\\x6b"), []byte("é"), {0xc3, 0x28},
	}
	for i, n := 0, Pick(g, 3, 1, 2, 6); i < n; i++ {
		k := g.N(len(ks))
		t.Keys = append(t.Keys, ks[k])
		ks = append(ks[:k:k], ks[k+1:]...)
	}
	t.Between = [4]int{100, 0, 0, 0}
	switch storage {
	case "bolt", "badger":
		t.Between = [4]int{25, 25, 25, 25}
		c.SmallTables = g.Pct(50)
		if g.Pct(50) {
			c.Crash = Pick(g, 20, 60, 150)
			c.CrashPower = g.Pct(75)
			c.CrashMix, c.CrashSync = g.Pct(50), g.Pct(50)
			c.CrashKeep = Pick(g, 3, 0, 1, 2)
		}
	case "pg":
		c.Nodes = Pick(g, 2, 1, 3)
		t.Between = [4]int{60, 0, 40, 0}
		if g.Pct(40) {
			c.Crash = Pick(g, 20, 60, 150)
		}
		if g.Pct(30) {
			c.PgErr = Pick(g, 100, 30, 400)
		}
		if g.Pct(30) {
			c.PgDrop = Pick(g, 30, 100)
		}
		if g.Pct(25) {
			c.Cancel = Pick(g, 50, 200)
		}
	}
	if storage == "badger" && g.Pct(30) {
		c.DiskReadErr = Pick(g, 100, 30, 400)
	}
	if storage == "bolt" && g.Pct(30) {
		c.DiskWriteErr = Pick(g, 50, 200)
		c.DiskSyncErr = Pick(g, 0, 50, 200)
		c.DiskOpenErr = Pick(g, 0, 100)
		if g.Pct(20) {
			c.DiskFull = int64(Pick(g, 30000, 60000, 120000))
		}
	}
	return c, t
}
