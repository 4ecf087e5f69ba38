module github.com/gorilla/handlers

go 1.20
