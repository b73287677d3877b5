package main

var curProgram *Program
