module vsimrewrite

go 1.25
