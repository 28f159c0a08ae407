// standard library, trusted
extern math.IsNaN(x) r
  ensures r == f_nan(x)
extern bits.OnesCount64(x) r
  ensures r == popcount(x)
extern fmt.Errorf(f, args) r
  ensures r != 0
