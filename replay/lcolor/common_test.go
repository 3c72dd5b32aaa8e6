package lcolor_test

const one = 0xffff
