module simverif

go 1.27

require (
	github.com/fumiama/go-docx v0.0.0
	github.com/fumiama/imgsz v0.0.2 // indirect
)

replace github.com/fumiama/go-docx => /repo
