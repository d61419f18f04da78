module ginkgoverif

go 1.23.0

require golang.org/x/tools v0.32.0
