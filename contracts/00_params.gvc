// Dimensions of the selected level, read through the real accessors.
let n0 = params.GetTLWELv0().N
let N = params.GetTRGSWLv1().N
let L = params.GetTRGSWLv1().L
let bgbit = int(params.GetTRGSWLv1().BGBIT)
let basebit = params.GetTRGSWLv1().BASEBIT
let base = 1 << basebit
let iksT = params.GetTRGSWLv1().IKS_T

shape tlwe.TLWELv0.P = n0+1
shape tlwe.TLWELv1.P = N+1
shape trlwe.TRLWELv1.A = N
shape trlwe.TRLWELv1.B = N
shape poly.Poly.Coeffs = N
shape poly.FourierPoly.Coeffs = N
shape trgsw.TRGSWLv1.TRLWE = 2*L
shape trgsw.TRGSWLv1FFT.TRLWEFFT = 2*L
shape cloudkey.CloudKey.KeySwitchingKey = N*iksT*base
shape cloudkey.CloudKey.BootstrappingKey = n0
