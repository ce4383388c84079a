// The documented parameter sets, as functions of the level number (any other
// number selects the 128-bit set).
def docN0(l) = ite(l == 8, 1160, ite(l == 7, 1160, ite(l == 6, 1071, ite(l == 5, 1071, ite(l == 4, 820, ite(l == 3, 820, ite(l == 2, 687, ite(l == 110, 630, ite(l == 80, 550, 700)))))))))
def docN1(l) = ite(l == 8, 2048, ite(l == 7, 2048, ite(l == 6, 2048, ite(l == 5, 2048, ite(l == 4, 2048, ite(l == 2, 512, 1024))))))
def docLL(l) = ite(l == 8, 1, ite(l == 7, 1, ite(l == 6, 1, ite(l == 5, 1, ite(l == 4, 1, ite(l == 3, 1, ite(l == 2, 1, ite(l == 1, 2, 3))))))))
def docBASE(l) = ite(l == 8, 7, ite(l == 7, 7, ite(l == 6, 6, ite(l == 5, 6, ite(l == 4, 5, ite(l == 3, 6, ite(l == 2, 4, 2)))))))
def docT(l) = ite(l == 8, 3, ite(l == 7, 3, ite(l == 6, 3, ite(l == 5, 3, ite(l == 4, 3, ite(l == 3, 2, ite(l == 2, 3, ite(l == 1, 8, ite(l == 110, 8, ite(l == 80, 7, 9))))))))))
def docBITS(l) = ite(l == 8, 22, ite(l == 7, 22, ite(l == 6, 22, ite(l == 5, 22, ite(l == 4, 22, ite(l == 3, 23, ite(l == 2, 18, ite(l == 1, 10, 6))))))))
def docA0(l) = ite(l == 8, 1.966220007498402695211596e-08, ite(l == 7, 1.966220007498402695211596e-08, ite(l == 6, 7.088226765410429399593757e-08, ite(l == 5, 7.088226765410429399593757e-08, ite(l == 4, 0.00000251676160959795544987084234, ite(l == 3, 0.00000251676160959795544987084234, ite(l == 2, 0.00002120846893069971872305794214, ite(l == 1, 2.0e-05, ite(l == 110, 3.0517578125e-05, ite(l == 80, 5.0e-5, 2.0e-5))))))))))
def docA1(l) = ite(l == 8, 2.2204460492503131e-17, ite(l == 7, 2.2204460492503131e-17, ite(l == 6, 2.2204460492503131e-17, ite(l == 5, 2.2204460492503131e-17, ite(l == 4, 0.00000000000000022204460492503131, ite(l == 3, 0.00000000000000022204460492503131, ite(l == 2, 0.00000000000231841227527049948463, ite(l == 1, 2.0e-08, ite(l == 110, 2.980232238769531e-8, ite(l == 80, 3.73e-8, 2.0e-8))))))))))

func params.GetTLWELv0() r
  prop C09
  set params.CurrentSecurityLevel = params.SecurityLevel(anyint("l"))
  let l = anyint("l")
  ensures [dimension] r.N == docN0(l)
  ensures [noise] r.ALPHA == docA0(l)

func params.GetTLWELv1() r
  prop C09
  set params.CurrentSecurityLevel = params.SecurityLevel(anyint("l"))
  let l = anyint("l")
  ensures [dimension] r.N == docN1(l)
  ensures [noise] r.ALPHA == docA1(l)

func params.GetTRLWELv1() r
  prop C09
  set params.CurrentSecurityLevel = params.SecurityLevel(anyint("l"))
  let l = anyint("l")
  ensures [dimension] r.N == docN1(l)
  ensures [noise] r.ALPHA == docA1(l)

func params.GetTRGSWLv1() r
  prop C09
  set params.CurrentSecurityLevel = params.SecurityLevel(anyint("l"))
  let l = anyint("l")
  ensures [ring degree] r.N == docN1(l)
  ensures [gadget] r.L == docLL(l) && int(r.BGBIT) == docBITS(l)
  ensures [key switching] r.BASEBIT == docBASE(l) && r.IKS_T == docT(l)
  ensures [noise] r.ALPHA == docA1(l)
  ensures [degrees agree] r.N == params.GetTLWELv1().N && r.N == params.GetTRLWELv1().N
  ensures [power of two] r.NBIT > 0 && r.NBIT < 30 && r.N == 1 << r.NBIT
  ensures [gadget base] r.BG == uint32(1) << r.BGBIT && r.BGBIT > 0 && r.BGBIT < 32
  ensures [gadget digits fit] r.L > 0 && int(r.BGBIT)*r.L <= 32
  ensures [key-switching digits fit] r.BASEBIT > 0 && r.IKS_T > 0 && r.BASEBIT*r.IKS_T <= 31
  ensures [message modulus fits] imp(l >= 1 && l <= 8, 1 << l <= r.N)
  ensures [block size] r.BlockSize >= 1

func params.KSKAlpha() r
  prop C09
  set params.CurrentSecurityLevel = params.SecurityLevel(anyint("l"))
  ensures r == docA0(anyint("l")) && r == params.GetTLWELv0().ALPHA

func params.BSKAlpha() r
  prop C09
  set params.CurrentSecurityLevel = params.SecurityLevel(anyint("l"))
  ensures r == docA1(anyint("l")) && r == params.GetTLWELv1().ALPHA

func params.SecurityInfo() r
  prop C09
  set params.CurrentSecurityLevel = params.SecurityLevel(anyint("l"))

func params.GetBlockCount() r
  prop C09
  set params.CurrentSecurityLevel = params.SecurityLevel(anyint("l"))
  let bs = params.GetTRGSWLv1().BlockSize
  ensures [covers the dimension] r*bs >= params.GetTLWELv0().N && (r-1)*bs < params.GetTLWELv0().N

func params.UseBlockBlindRotation() r
  prop C09
  set params.CurrentSecurityLevel = params.SecurityLevel(anyint("l"))
  ensures iff(r, params.GetTRGSWLv1().BlockSize > 1)
