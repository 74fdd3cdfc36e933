// Package p22 writes the verdicts of generated Go validation.
package p22

import "github.com/wskfjtheqian/hbuf_golang/drv/p12"

// Main is the driver.
func Main(reg map[string]any) { p12.Table(reg) }
