package chk

import "os"

func dbg(s string) {
	if os.Getenv("MKV_DBG") != "" {
		println(s)
	}
}
