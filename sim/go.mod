module vsim

go 1.23
