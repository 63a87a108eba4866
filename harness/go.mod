module verif

go 1.21

require github.com/keyfuse/tokucore v0.0.0

replace github.com/keyfuse/tokucore => /repo
