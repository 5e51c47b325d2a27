module svc

go 1.24
