module verif/harness

go 1.23

require github.com/rikchilvers/gledger v0.0.0

replace github.com/rikchilvers/gledger => /repo
