package main

func selftest(what string) {}
