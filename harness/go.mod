module vh

go 1.23

require github.com/go-air/gini v0.0.0

replace github.com/go-air/gini => /repo
