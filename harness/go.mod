module verif/harness

go 1.21.0

require hbuf v0.0.0

require github.com/shopspring/decimal v1.4.0 // indirect

replace hbuf => /repo
