import c02
c02.KIND = 'D'
record = c02.record
