module rewrite

go 1.26
