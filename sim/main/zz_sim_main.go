package main

import (
	"os"

	"github.com/g-rath/osv-detector/internal/zzsim"
)

func init() {
	if os.Getenv("OSV_SIM") != "" && !zzsim.Reinit {
		zzsim.Main(run)
		os.Exit(0)
	}
}
