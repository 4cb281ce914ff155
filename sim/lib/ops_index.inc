X(00)
X(01)
X(02)
X(03)
X(04)
X(05)
X(06)
X(07)
X(08)
X(09)
X(10)
X(11)
