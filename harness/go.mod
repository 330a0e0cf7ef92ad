module verif/harness

go 1.21

require github.com/sfomuseum/go-edtf v0.0.0

replace github.com/sfomuseum/go-edtf => /repo
