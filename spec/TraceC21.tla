------------------------------ MODULE TraceC21 ------------------------------
(* Plots.                                                                    *)
EXTENDS Plotting, Figures, TraceBase

Rng(s) == {s[i] : i \in 1..Len(s)}
BaseTol(b) == 20 + b \div 100000
RGBTol == 3
(* The colors which are expected of n items, and how closely.                *)
SceneFail(r) ==
  LET o == r.out  n == r.n  d == r.dim  W == M2(r.W)  E == EdgeSeq(W)  ne == Len(E)
      X == M2(r.coords)             \* n x dim
      draw == r.edges # "F" /\ d > 1
      signal == r.color.kind = "signal"
      sizes == CASE r.size.kind = "signal" -> VertexSizes(r.size.v.v, r.base.vs, r.base.c)
                 [] r.size.kind = "scalar" -> [i \in 1..n |-> r.size.v.v[1]]
                 [] OTHER -> [i \in 1..n |-> r.base.vs]
      widths == CASE r.ewidth.kind = "signal" -> EdgeWidths(r.ewidth.v.v, r.base.ew, r.base.c)
                  [] r.ewidth.kind = "scalar" -> [k \in 1..ne |-> r.ewidth.v.v[1]]
                  [] OTHER -> [k \in 1..ne |-> r.base.ew]
      ecolors == CASE r.ecolor.kind = "signal" ->
                        LET a == EdgeAlphas(r.ecolor.v.v, r.base.c)
                        IN [k \in 1..ne |-> <<r.base.ec[1], r.base.ec[2], r.base.ec[3], a[k]>>]
                   [] r.ecolor.kind = "rgba" -> M2(r.ecolor.v)
                   [] OTHER -> [k \in 1..ne |-> r.base.ec]
      limits == IF r.limits # <<>> THEN r.limits ELSE IF signal THEN DefaultLimits(r.color.v.v) ELSE <<>>
      hl == [k \in 1..Len(r.highlight) |-> r.highlight[k] + 1]
      points == d > 1 \/ ~signal
      P(i) == IF d > 1 THEN X[i] ELSE <<X[i][1], 0>>
      rgb == IF signal THEN <<>> ELSE M2(r.color.v)
      seg == TLCEval(Segments(E, X))
  IN (IF points
      THEN Clause("every vertex at its coordinates",
                  IsMat(o.pts, [i \in 1..n |-> P(i)], 1))
           \cup Clause("size of the vertices", IsVec(o.sizes, sizes, BaseTol(r.base.vs)))
           \cup (IF signal
                 THEN Clause("signal shown as color", IsVec(o.arr, r.color.v.v, 1))
                      \cup Clause("limits of the colors", IF limits[1] < limits[2] THEN IsVec(o.clim, limits, 1)
                                                           ELSE o.clim.v[1] <= limits[1] /\ o.clim.v[2] >= limits[2])
                 ELSE Clause("color of the vertices", IsMat(o.rgb, rgb, RGBTol)))
      ELSE Clause("no vertex but the curves", o.pts.s[1] = 0)
           \cup Clause("one curve per signal",
                  LET Y == IF Len(r.color.v.s) = 1 THEN [i \in 1..n |-> <<r.color.v.v[i]>>] ELSE M2(r.color.v)
                      k == Len(Y[1])
                  IN Len(o.curves) = k
                     /\ \A j \in 1..k : /\ IsVec(o.curves[j].x, Col(X, 1), 1)
                                        /\ IsVec(o.curves[j].y, Col(Y, j), 1))
           \cup Clause("limits of the signals",
                  IF limits[1] < limits[2] THEN IsVec(o.ylim, limits, 2)
                  ELSE o.ylim.v[1] <= limits[1] /\ o.ylim.v[2] >= limits[2]))
     \cup Clause("every edge between its end points",
            IF draw /\ ne > 0 THEN o.segs.s = <<ne, 2, d>> /\ AllWF(o.segs)
                  /\ LET G == M3(o.segs)
                     IN \A k \in 1..ne : EqVec(G[k][1], seg[k][1], 1) /\ EqVec(G[k][2], seg[k][2], 1)
            ELSE o.segs.s[1] = 0)
     \cup (IF draw /\ ne > 0
           THEN Clause("width of the edges", IsVec(o.widths, widths, BaseTol(r.base.ew)))
                \cup Clause("color of the edges", IsMat(o.ecolors, ecolors, RGBTol))
                \cup Clause("style of the edges", o.solid = r.base.solid)
           ELSE {})
     \cup (IF d > 1
           THEN Clause("highlighted vertices",
                       IF hl = <<>> THEN o.hlpts.s[1] = 0
                       ELSE IsMat(o.hlpts, [k \in 1..Len(hl) |-> X[hl[k]]], 1)
                            /\ IsVec(o.hlsizes, [k \in 1..Len(hl) |-> 2 * sizes[hl[k]]], 2 * BaseTol(r.base.vs))
                            /\ IsMat(o.hlrgb, [k \in 1..Len(hl) |-> r.base.hc], RGBTol))
           ELSE Clause("highlighted vertices",
                       /\ Len(o.vlines) = Len(hl)
                       /\ \A k \in 1..Len(hl) : IsVec(o.vlines[k].x, <<X[hl[k]][1], X[hl[k]][1]>>, 1)
                                                /\ IsVec(o.vlines[k].rgb, r.base.hc, RGBTol)))
     \cup Clause("indices of the vertices",
            IF r.indices = "T"
            THEN Len(o.texts) = n
                 /\ {o.texts[i].label : i \in 1..n} = {ToString(i - 1) : i \in 1..n}
                 /\ \A i \in 1..n : \E j \in 1..n :
                      /\ o.texts[i].label = ToString(j - 1)
                      /\ Close(o.texts[i].pos[1], X[j][1], 1)
                      /\ d > 1 => \A a \in 1..d : Close(o.texts[i].pos[a], X[j][a], 1)
            ELSE o.texts = <<>>)
     \cup Clause("colorbar", (o.cbar = "T") = (signal /\ d > 1 /\ r.colorbar = "T"))
     \cup Clause("title", IF r.title = "?" THEN o.title = o.deftitle ELSE o.title = r.title)
     \cup Clause("point of view", r.view = <<>> \/ (Close(o.view[1], r.view[1], 1) /\ Close(o.view[2], r.view[2], 1)))
AxesFail(r) ==
  LET o == r.out
  IN Clause("axes and figure returned", o.returned = "T")
     \cup Clause("drawn on the given axes, or on a new figure",
            IF o.ax = "T" THEN o.same = "T" /\ o.newfigs = 0 ELSE o.newfigs = 1 /\ o.naxes = 1 + (IF o.cbar = "T" THEN 1 ELSE 0))
     \cup Clause("arguments, graph and attributes unchanged", o.stays = "T")

FilterFail(r) ==
  LET o == r.out  nf == r.nf
      grid == [i \in 1..r.n |-> IF r.n = 1 THEN 0 ELSE (FMul(r.lmax, FDiv((i - 1) * S, (r.n - 1) * S)))]
      e == r.e.v
      showe == r.eigenvalues = "T"
      x == SortSeq(grid \o (IF showe THEN e ELSE <<>>), <)
      m == Len(x)
      total == nf + (IF r.sum = "T" THEN 1 ELSE 0)
      Sq(Y, k) == SumF(LAMBDA j : FSq(Y[j].y.v[k]), nf)
  IN IF Len(o.curves) # total \/ \E j \in 1..Len(o.curves) : o.curves[j].x.s # <<m>> \/ o.curves[j].y.s # <<m>> \/ ~AllWF(o.curves[j].y)
     THEN {"one curve per filter, and their sum of squares"}
     ELSE Clause("responses between zero and the largest eigenvalue", \A j \in 1..total : EqVec(o.curves[j].x.v, x, 12))
          \cup Clause("response of each filter", \A j \in 1..nf : o.curves[j].y = o.ref[j])
          \cup (IF r.sum = "T" THEN Clause("sum of squares",
                  \A k \in 1..m : LET q == Sq(o.curves, k) IN Close(o.curves[total].y.v[k], q, 30 + q \div 50000)) ELSE {})
          \cup Clause("eigenvalues", IF showe THEN IsVec(o.bars, e, 1) ELSE o.bars.s = <<0>>)
          \cup Clause("responses at the eigenvalues",
                 IF showe
                 THEN Len(o.dots) = total
                      /\ (\A i \in 1..total : IsVec(o.dots[i].x, e, 1) /\ o.dots[i].y.s = <<Len(e)>> /\ AllWF(o.dots[i].y))
                      /\ (\A i \in 1..nf : o.dots[i].y = o.eref[i])
                      /\ (r.sum = "T" => \A k \in 1..Len(e) : LET q == Sq(o.dots, k) IN Close(o.dots[total].y.v[k], q, 30 + q \div 50000))
                 ELSE o.dots = <<>>)
          \cup Clause("same color for a filter and its dots", \A j \in 1..Len(o.dots) : o.dots[j].rgb = o.curves[j].rgb)
          \cup Clause("labels", IF r.labels = "T"
                    THEN SelectSeq(o.legend, LAMBDA k : k # -2) = [j \in 1..total |-> IF j <= nf THEN j - 1 ELSE -1]
                    ELSE o.legend = <<>>)
          \cup Clause("options passed on", r.lw = 0 \/ \A j \in 1..total : o.curves[j].lw = r.lw)
          \cup Clause("title", IF r.title = "?" THEN o.title = o.deftitle ELSE o.title = r.title)

QtFail(r) ==
  LET o == r.out  n == r.n  d == r.dim  W == M2(r.W)  E == EdgeSeq(W)  X == M2(r.coords)
      limits == IF r.limits # <<>> THEN r.limits ELSE IF r.signal.s = <<n>> THEN DefaultLimits(r.signal.v) ELSE <<>>
  IN Clause("every vertex at its coordinates", IsMat(o.pts, X, 1))
     \cup Clause("every edge between its end points",
            IF d = 2 THEN (r.edges = "T" /\ Len(E) > 0) => (o.adj = [k \in 1..Len(E) |-> <<E[k][1] - 1, E[k][2] - 1>>] /\ o.pen = "T")
            ELSE IF r.edges = "T" /\ Len(E) > 0
                 THEN IsMat(o.segs, [k \in 1..(2 * Len(E)) |-> X[E[(k + 1) \div 2][IF k % 2 = 1 THEN 1 ELSE 2]]], 1)
                 ELSE o.segs.s[1] = 0)
     \cup Clause("no edge unless requested", r.edges = "T" \/ (IF d = 2 THEN o.pen = "F" ELSE o.segs.s[1] = 0))
     \cup (IF r.signal.s = <<n>> /\ limits[1] < limits[2]
           THEN Clause("signal shown as color",
                  o.rgb.s = <<n, 3>> /\ LET C == M2(o.rgb)
                    IN \A i \in 1..n : LET c == OnScale(r.signal.v[i], limits[1], limits[2])
                         IN \A a \in 1..3 : Close(C[i][a], c[a], 2500000))
           ELSE {})
     \cup Clause("title", o.title = r.title)
     \cup Clause("one widget, shown and tracked, no figure", o.widgets = 1 /\ o.visible = "T" /\ o.newfigs = 0)
     \cup Clause("closed", o.second = 2 /\ o.closed = "T" /\ o.left = 0)
SpectrogramFail(r) ==
  LET o == r.out  n == r.n  m == r.m  v == o.spectr.v
      lo == MinSeq(v)  hi == MaxSeq(v)
  IN Clause("one cell per vertex and frequency",
            o.x = [k \in 1..(n * m) |-> (k - 1) \div m] /\ o.y = [k \in 1..(n * m) |-> (k - 1) % m])
     \cup Clause("title", o.title = o.deftitle)
     \cup Clause("spectrogram shown as color, vertices in the given order",
            o.rgb.s = <<n * m, 3>> /\ (lo < hi =>
              LET C == M2(o.rgb)
              IN \A k \in 1..(n * m) :
                   LET c == OnSpectrum(v[r.order[1 + ((k - 1) \div m)] * m + 1 + ((k - 1) % m)], lo, hi)
                   IN \A h \in 1..3 : Close(C[k][h], c[h], 2500000)))
     \cup Clause("one widget, shown and tracked, no figure", o.widgets = 1 /\ o.visible = "T")
HistoryFail(r) ==
  LET o == r.out  T == States(NoFigure, r.hist)
  IN Clause("open figures",
            Len(o.open) = Len(T) /\ \A k \in 1..Len(T) : Rng(o.open[k]) = T[k].open)
     \cup Clause("no figure left tracked after closing all", o.tracked = "T")
     \cup Clause("axes and figure returned", o.returned = "T")
ManyFail(r) == Clause("edges drawn by default if there are less than ten thousand", r.out.drawn = (IF r.ne < 10000 THEN r.ne ELSE 0))
                \cup Clause("edges drawn on request", r.out.asked = r.ne)
FailC21(r) ==
  IF r.exc # "" THEN {r.kind \o " raised " \o r.exc}
  ELSE CASE r.kind = "graph" -> SceneFail(r) \cup AxesFail(r)
         [] r.kind = "filter" -> FilterFail(r) \cup AxesFail(r)
         [] r.kind = "qt" -> QtFail(r)
         [] r.kind = "spectrogram" -> SpectrogramFail(r)
         [] r.kind = "history" -> HistoryFail(r)
         [] r.kind = "many" -> ManyFail(r)
         [] OTHER -> {"unknown record"}
=============================================================================
