module govc

go 1.18
