// Package bdgr makes the badger storage, on the simulated disk, available to worlds.
package bdgr

import (
	"verifsim/rt/disk"
	"verifsim/sim"

	bdg "github.com/dgraph-io/badger"

	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

func init() {
	sim.Stores["badger"] = func(w *sim.World, n *sim.Node) (verifiable.StorageWriter, bool) {
		bdg.SimReadFault = disk.ReadFault
		bdg.SimTableSize, bdg.SimLogSize = 1<<18, 1<<18
		if w.C.SmallTables {
			bdg.SimTableSize, bdg.SimLogSize = 1<<15, 1<<12
		}
		if len(w.C.Objs) > 0 {
			// Badger cannot read what lies beyond twice the size of a log file, and refuses
			// transactions of more than 15% of the size of a table.
			bdg.SimTableSize, bdg.SimLogSize = 1<<21, 1<<18
			if w.C.SmallTables {
				bdg.SimTableSize, bdg.SimLogSize = 1<<20, 1<<15
			}
		}
		return &badger.Storage{Path: "/d"}, true
	}
}
