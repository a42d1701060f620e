module mutate

go 1.14
