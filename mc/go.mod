module github.com/mem-memov/semnet/verifmc

go 1.18

require (
	github.com/mem-memov/clew v0.0.0-20210821154757-fcb3c88ad044
	github.com/mem-memov/semnet v0.0.0
)

replace github.com/mem-memov/semnet => /repo
