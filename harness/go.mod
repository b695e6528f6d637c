module verifharness

go 1.21

require (
	github.com/danomagnum/gologix v0.0.0
	github.com/npat-efault/crc16 v0.0.0-20161013170008-4128ccbe47c3
)

replace github.com/danomagnum/gologix => /repo
