// Trusted contracts of library functions and of the logger: no effect on the program's data.
extern MyLogger.Printf(l, s, a)
extern MyLogger.Error(l, s, a)
extern MyLogger.Verbose(l, v, s, a)
extern MyLogger.Sync(l)
extern fmt.Sprintf(s, a)
extern errors.New(s)
  ensures result != nil
extern MiniLogger.Printf(l, s, a)
extern MiniLogger.Verbose(l, v, s, a)
