module verifmon

go 1.18

require github.com/project-flogo/core v1.6.10
