module verif

go 1.23

require github.com/benedoc-inc/pdfer v0.0.0

replace github.com/benedoc-inc/pdfer => /repo
