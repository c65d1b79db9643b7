module example.test/self

go 1.19
