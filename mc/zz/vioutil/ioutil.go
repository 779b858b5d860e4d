// Package vioutil replaces io/ioutil.ReadDir.
package vioutil

import (
	"os"

	"github.com/GalaIO/P2Pcrawler/zz/vos"
)

func ReadDir(name string) ([]os.FileInfo, error) {
	es, err := vos.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []os.FileInfo
	for _, e := range es {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, fi)
	}
	return out, nil
}
