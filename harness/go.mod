module verifharness

go 1.17

require github.com/shellyln/takenoco v0.0.0

replace github.com/shellyln/takenoco => /repo
