module github.com/zenazn/goji

go 1.20
