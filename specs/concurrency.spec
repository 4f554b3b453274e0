package concurrency

def rq(sc, j) = received(sc.InChan, j).seq

func lemmaSequencer
prop C20
requires sc.InChan != sc.outChan
requires !closed(sc.outChan)
requires sc.theMap != nil && len(sc.theMap) == 0 && forall(k, !mapdom(sc.theMap, k))
requires !sc.bloated
requires nreceived(sc.InChan) >= 0 && nsent(sc.outChan) >= 0 && nreceived(sc.InChan) <= 1099511627776 && nsent(sc.outChan) <= 1099511627776
requires sc.nextOut >= 0 && sc.nextOut <= 1099511627776
requires forallt(j, received(sc.InChan, j), imp(j >= nreceived(sc.InChan), received(sc.InChan, j) != nil && rq(sc, j) >= sc.nextOut && rq(sc, j) <= 1099511627776))
requires forallt(i, received(sc.InChan, i), forallt(j, received(sc.InChan, j), imp(i >= nreceived(sc.InChan) && j >= nreceived(sc.InChan) && i != j, rq(sc, i) != rq(sc, j))))
maypanic
modifies chanof(sc.InChan), chanof(sc.outChan), mapof(sc.theMap), sc.nextOut, sc.bloated
ensures [closed] closed(sc.outChan)
ensures [order] sqo(sc)
ensures [all] forallt(j, received(sc.InChan, j), imp(old(nreceived(sc.InChan)) <= j && j < nreceived(sc.InChan), rq(sc, j) - old(sc.nextOut) < nsent(sc.outChan) - old(nsent(sc.outChan)) && sent(sc.outChan, old(nsent(sc.outChan)) + rq(sc, j) - old(sc.nextOut)) == received(sc.InChan, j)))
ensures [given] sqg(sc)
ensures [kept] forall(i, imp(0 <= i && i < old(nsent(sc.outChan)), sent(sc.outChan, i) == old(sent(sc.outChan, i))))

def sqi(sc) = sc.nextOut >= old(sc.nextOut) && nsent(sc.outChan) - old(nsent(sc.outChan)) == sc.nextOut - old(sc.nextOut) && nreceived(sc.InChan) >= old(nreceived(sc.InChan)) && !closed(sc.outChan)
def sqk(sc) = forallt(k, mapdom(sc.theMap, k), imp(mapdom(sc.theMap, k), mapval(sc.theMap, k) != nil && mapval(sc.theMap, k).seq == k))
def sqo(sc) = forallt(i, sent(sc.outChan, i), imp(old(nsent(sc.outChan)) <= i && i < nsent(sc.outChan), sent(sc.outChan, i) != nil && sent(sc.outChan, i).seq == old(sc.nextOut) + i - old(nsent(sc.outChan))))
def sqp(sc) = forall(i, imp(0 <= i && i < old(nsent(sc.outChan)), sent(sc.outChan, i) == old(sent(sc.outChan, i))))
def sqa(sc) = forallt(j, received(sc.InChan, j), imp(old(nreceived(sc.InChan)) <= j && j < nreceived(sc.InChan), ite(rq(sc, j) >= sc.nextOut, mapdom(sc.theMap, rq(sc, j)) && mapval(sc.theMap, rq(sc, j)) == received(sc.InChan, j), sent(sc.outChan, old(nsent(sc.outChan)) + rq(sc, j) - old(sc.nextOut)) == received(sc.InChan, j))))
def frm(sc, x) = exists(j, old(nreceived(sc.InChan)) <= j && j < nreceived(sc.InChan) && received(sc.InChan, j) == x)
def sqf(sc) = forallt(k, mapdom(sc.theMap, k), imp(mapdom(sc.theMap, k), frm(sc, mapval(sc.theMap, k))))
def sqg(sc) = forallt(i, sent(sc.outChan, i), imp(old(nsent(sc.outChan)) <= i && i < nsent(sc.outChan), frm(sc, sent(sc.outChan, i))))
def sqb(sc) = imp(sc.bloatedCount >= 1, iff(sc.bloated, len(sc.theMap) >= sc.bloatedCount))

loop 1
inv [due] !mapdom(sc.theMap, sc.nextOut)
inv sqi(sc) && sqk(sc) && sqo(sc) && sqp(sc) && sqf(sc) && sqg(sc) && sqa(sc)
inv [bloat] sqb(sc)
loop 2
inv sqi(sc) && sqk(sc) && sqo(sc) && sqp(sc) && sqf(sc) && sqg(sc) && sqa(sc)
inv [bloat] sqb(sc)
loop 3
inv sqi(sc) && sqk(sc) && sqo(sc) && sqp(sc) && sqf(sc) && sqg(sc) && sqa(sc)
inv [bloat] sqb(sc)

ufun wtask(n) int 1 1000000000000

func github.com/KitchenMishap/pudding-shed/concurrency.Task.Process
trusted
requires [once] ghost("wstage") == 0 && ifid(recv) == wtask(ghost("wdone"))
modifies ghost("wstage"), ghost("werr")
ensures ghost("wstage") == 1 && ghost("werr") == ifid(result0)

func github.com/KitchenMishap/pudding-shed/concurrency.Task.SetError
trusted
requires [outcome] ghost("wstage") == 1 && ifid(recv) == wtask(ghost("wdone")) && ifid(arg0) == ghost("werr")
modifies ghost("wstage")
ensures ghost("wstage") == 2

func github.com/KitchenMishap/pudding-shed/concurrency.Task.Done
trusted
requires [after] ghost("wstage") == 2 && ifid(recv) == wtask(ghost("wdone"))
modifies ghost("wstage"), ghost("wdone")
ensures ghost("wstage") == 0 && ghost("wdone") == old(ghost("wdone")) + 1

func (*WorkerPool).worker
prop C20
requires ghost("wstage") == 0 && ghost("wdone") == 0 && nreceived(wp.InChan) >= 0 && nreceived(wp.InChan) < 1099511627776
requires forallt(j, received(wp.InChan, j), imp(j >= nreceived(wp.InChan), received(wp.InChan, j) != nil && ifid(received(wp.InChan, j)) == wtask(j - nreceived(wp.InChan))))
modifies chanof(wp.InChan), ghost("wstage"), ghost("werr"), ghost("wdone")
loop 1
inv ghost("wstage") == 0 && ghost("wdone") == nreceived(wp.InChan) - old(nreceived(wp.InChan)) && nreceived(wp.InChan) >= old(nreceived(wp.InChan))
ensures [all] ghost("wstage") == 0 && ghost("wdone") == nreceived(wp.InChan) - old(nreceived(wp.InChan))
