module automut
go 1.23
