#!/usr/bin/env python3
# writes contracts/94-draw-methods.gc: the same contract for each method of each drawer
modes='normal darken multiply colorBurn linearBurn darkerColor lighten screen colorDodge linearDodge add lighterColor overlay softLight hardLight linearLight vividLight pinLight hardMix difference exclusion subtract divide hue saturation color luminosity'.split()
pd='clear copy dest srcOver destOver srcIn destIn srcOut destOut srcAtop destAtop xOR'.split()
out=['// written by tools/mkdraw.py','''
// the rows are taken from the first to the last or the other way round, and so are the pixels
// of a row; destination and source run in the same direction
spec rowsIn(d0, s0, h, dyd, syd, dmin, smin, ds, ss) = dyd == ds && d0 == dmin && syd == ss && s0 == smin || dyd == -ds && d0 == dmin + (h-1)*ds && syd == -ss && s0 == smin + (h-1)*ss
spec colsIn(w, n, sx0, sx1, sxd, dx0, dx1, dxd) = dxd == 4 && dx0 == 0 && dx1 == 4*w && sxd == n && sx0 == 0 && sx1 == n*w || dxd == -4 && dx0 == 4*(w-1) && dx1 == -4 && sxd == -n && sx0 == n*(w-1) && sx1 == -n
spec pixAt(im, p, n) = (p.Y - im.Rect.Min.Y)*im.Stride + (p.X - im.Rect.Min.X)*n
spec sized(r) = -1099511627776 <= r.Min.X && r.Min.X < r.Max.X && r.Max.X <= 1099511627776 && -1099511627776 <= r.Min.Y && r.Min.Y < r.Max.Y && r.Max.Y <= 1099511627776
''']
P='"psd/blend.drawFunc.Parallel"'
def a(i,p=P): return 'callarg(%s,%d)'%(p,i)
def two(t,s,d):
    n=1 if s=='Alpha' else 4
    out.append('func psd/blend.%s.draw%sTo%sUniform(d, dst, r, src, sp, mask)'%(t,s,d))
    out.append('\trequires sized(r)')
    out.append('\tmodifies anything')
    out.append('\texit [C21,C22] mask == nil || rgba(mask.C, 3) >= %d ==> called(%s)'%(1 if t in pd else 256,P))
    if t in pd: pass
    out.append('\texit [C21,C22] called(%s) ==> same(%s, dst.Pix) && same(%s, src.Pix) && %s == r.Max.Y - r.Min.Y'%(P,a(1),a(2),a(6)))
    out.append('\texit [C21,C22] called(%s) ==> rowsIn(%s, %s, r.Max.Y - r.Min.Y, %s, %s, pixAt(dst, r.Min, 4), pixAt(src, sp, %d), dst.Stride, src.Stride)'%(P,a(4),a(5),a(14),a(10),n))
    out.append('\texit [C21,C22] called(%s) ==> colsIn(r.Max.X - r.Min.X, %d, %s, %s, %s, %s, %s, %s)'%(P,n,a(7),a(8),a(9),a(11),a(12),a(13)))
    out.append('')
U='"psd/blend.drawUniformFunc.Parallel"'
def uni(t,d):
    out.append('func psd/blend.%s.drawUniformTo%sUniform(d, dst, r, src, sp, mask)'%(t,d))
    out.append('\trequires sized(r)')
    out.append('\tmodifies anything')
    out.append('\texit [C21,C22] mask == nil || rgba(mask.C, 3) >= 1 ==> called(%s)'%U)
    out.append('\texit [C21,C22] called(%s) ==> base(%s) == base(dst.Pix) && off(%s) == off(dst.Pix) + pixAt(dst, r.Min, 4) && off(%s) + len(%s) == off(dst.Pix) + len(dst.Pix)'%(U,a(1,U),a(1,U),a(1,U),a(1,U)))
    out.append('\texit [C21,C22] called(%s) ==> %s == r.Max.Y - r.Min.Y && %s == 0 && %s == 4*(r.Max.X - r.Min.X) && %s == 4 && %s == dst.Stride'%(U,a(6,U),a(7,U),a(8,U),a(9,U),a(10,U)))
    out.append('')
F='"psd/blend.drawFallbackFunc.Parallel"'
def fall(t):
    out.append('func psd/blend.%s.drawFallback(d, dst, r, src, sp, mask, mp)'%t)
    out.append('\trequires sized(r)')
    out.append('\tmodifies anything')
    out.append('\texit [C21,C22] called(%s)'%F)
    for i,v in ((1,'dst'),(4,'src'),(7,'mask')):
        out.append('\texit [C21,C22] called(%s) ==> same(%s, %s)'%(F,a(i,F),v))
    out.append('\texit [C21,C22] called(%s) ==> (%s == 1 && %s == 1 && %s == r.Min.X && %s == r.Min.Y && %s == r.Max.X && %s == r.Max.Y || %s == -1 && %s == -1 && %s == r.Max.X-1 && %s == r.Max.Y-1 && %s == r.Min.X-1 && %s == r.Min.Y-1)'%((F,)+tuple(a(i,F) for i in (12,13,2,3,10,11,12,13,2,3,10,11))))
    for i,j,p,c in ((5,2,'sp','X'),(6,3,'sp','Y'),(8,2,'mp','X'),(9,3,'mp','Y')):
        out.append('\texit [C21,C22] called(%s) ==> %s == %s - r.Min.%s + %s.%s'%(F,a(i,F),a(j,F),c,p,c))
    out.append('')
for t in modes+pd:
    for s in ('NRGBA','RGBA')+(('Alpha',) if t in pd else ()):
        for d in ('NRGBA','RGBA'): two(t,s,d)
    if t in pd:
        for d in ('NRGBA','RGBA'): uni(t,d)
    else: fall(t)
open('/verif/contracts/94-draw-methods.gc','w').write('\n'.join(out))
