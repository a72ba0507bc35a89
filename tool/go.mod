module vtool

go 1.24
