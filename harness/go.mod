module verif/harness

go 1.23

require github.com/ing-bank/zkrp v0.0.0

require github.com/ethereum/go-ethereum v1.9.10 // indirect

replace github.com/ing-bank/zkrp => /repo
