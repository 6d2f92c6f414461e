define double @sx_frem(double %a, double %b) {
  %r = frem double %a, %b
  ret double %r
}
