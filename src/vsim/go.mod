module vsim

go 1.24.0
