module mkoverlay

go 1.21
