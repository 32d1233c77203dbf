// Queues of strategy actions. ghost xid.n counts the IDs generated so far, xid(n) is the n-th
// of them and xidnum its number, so IDs with different numbers differ.

macro idsBefore(m, n) = forallstr(k, implies(in(m, k), xidnum(k) < n))
macro keepsAll(m, m0) = forallstr(k, implies(old(in(m0, k)), in(m, k) && m[k] == old(m0[k])))
macro onlyNew(m, m0) = forallstr(k, implies(in(m, k) && !old(in(m0, k)), isxid(k) && old(ghost("xid.n")) <= xidnum(k) && xidnum(k) < ghost("xid.n")))

macro sameCreateOrderAction(x, y) = x.Symbol == y.Symbol && x.ActionType == y.ActionType && x.OrderType == y.OrderType && x.Price == y.Price && x.Volume == y.Volume && x.StopLoss == y.StopLoss && x.TakeProfit == y.TakeProfit && x.Slippage == y.Slippage

func strategy.(*CreateOrderAction).GenerateID(action)
  requires receiver: action != nil
  modifies [C27] action.ID, ghostvar("xid.n")
  ensures [C27] generated: action.ID == xid(old(ghost("xid.n"))) && ghost("xid.n") == old(ghost("xid.n")) + 1
  test [C27] generated: len(action.ID) == 20

func strategy.(*Actions).AddCreateOrders(a, actions)
  requires receiver: a != nil
  requires known-ids: idsBefore(a.CreateOrders, ghost("xid.n"))
  modifies [C27] a.CreateOrders, entries(a.CreateOrders), ghostvar("xid.n")
  ensures [C27] kept: keepsAll(a.CreateOrders, old(a.CreateOrders))
  ensures [C27] one-id-each: ghost("xid.n") == old(ghost("xid.n")) + len(actions)
  ensures [C27] each-added: forall(j, 0, len(actions), in(a.CreateOrders, xid(old(ghost("xid.n"))+j)) && a.CreateOrders[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameCreateOrderAction(a.CreateOrders[xid(old(ghost("xid.n"))+j)], actions[j]))
  ensures [C27] nothing-else: onlyNew(a.CreateOrders, old(a.CreateOrders))
  test [C27] count: entries(a.CreateOrders) == old(entries(a.CreateOrders)) + len(actions)
  test [C27] own-id: forallstr(k, implies(in(a.CreateOrders, k) && !old(in(a.CreateOrders, k)), a.CreateOrders[k].ID == k && len(k) == 20))
  test [C27] all-there: forall(j, 0, len(actions), !forallstr(k, !(in(a.CreateOrders, k) && !old(in(a.CreateOrders, k)) && sameCreateOrderAction(a.CreateOrders[k], actions[j]))))
  inv () :: idsBefore(a.CreateOrders, ghost("xid.n"))
  inv () :: keepsAll(a.CreateOrders, old(a.CreateOrders))
  inv () :: onlyNew(a.CreateOrders, old(a.CreateOrders))
  inv () :: a.CreateOrders != nil
  inv (I int) :: ghost("xid.n") == old(ghost("xid.n")) + I
  inv () :: forall(j, 0, ghost("xid.n") - old(ghost("xid.n")), in(a.CreateOrders, xid(old(ghost("xid.n"))+j)) && a.CreateOrders[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameCreateOrderAction(a.CreateOrders[xid(old(ghost("xid.n"))+j)], actions[j]))

macro sameUpdateOrderAction(x, y) = x.OrderID == y.OrderID && x.Price == y.Price && x.Volume == y.Volume && x.StopLoss == y.StopLoss && x.TakeProfit == y.TakeProfit && x.Slippage == y.Slippage

func strategy.(*UpdateOrderAction).GenerateID(action)
  requires receiver: action != nil
  modifies [C27] action.ID, ghostvar("xid.n")
  ensures [C27] generated: action.ID == xid(old(ghost("xid.n"))) && ghost("xid.n") == old(ghost("xid.n")) + 1
  test [C27] generated: len(action.ID) == 20

func strategy.(*Actions).AddUpdateOrders(a, actions)
  requires receiver: a != nil
  requires known-ids: idsBefore(a.UpdateOrders, ghost("xid.n"))
  modifies [C27] a.UpdateOrders, entries(a.UpdateOrders), ghostvar("xid.n")
  ensures [C27] kept: keepsAll(a.UpdateOrders, old(a.UpdateOrders))
  ensures [C27] one-id-each: ghost("xid.n") == old(ghost("xid.n")) + len(actions)
  ensures [C27] each-added: forall(j, 0, len(actions), in(a.UpdateOrders, xid(old(ghost("xid.n"))+j)) && a.UpdateOrders[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameUpdateOrderAction(a.UpdateOrders[xid(old(ghost("xid.n"))+j)], actions[j]))
  ensures [C27] nothing-else: onlyNew(a.UpdateOrders, old(a.UpdateOrders))
  test [C27] count: entries(a.UpdateOrders) == old(entries(a.UpdateOrders)) + len(actions)
  test [C27] own-id: forallstr(k, implies(in(a.UpdateOrders, k) && !old(in(a.UpdateOrders, k)), a.UpdateOrders[k].ID == k && len(k) == 20))
  test [C27] all-there: forall(j, 0, len(actions), !forallstr(k, !(in(a.UpdateOrders, k) && !old(in(a.UpdateOrders, k)) && sameUpdateOrderAction(a.UpdateOrders[k], actions[j]))))
  inv () :: idsBefore(a.UpdateOrders, ghost("xid.n"))
  inv () :: keepsAll(a.UpdateOrders, old(a.UpdateOrders))
  inv () :: onlyNew(a.UpdateOrders, old(a.UpdateOrders))
  inv () :: a.UpdateOrders != nil
  inv (I int) :: ghost("xid.n") == old(ghost("xid.n")) + I
  inv () :: forall(j, 0, ghost("xid.n") - old(ghost("xid.n")), in(a.UpdateOrders, xid(old(ghost("xid.n"))+j)) && a.UpdateOrders[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameUpdateOrderAction(a.UpdateOrders[xid(old(ghost("xid.n"))+j)], actions[j]))

macro sameCancelOrderAction(x, y) = x.OrderID == y.OrderID

func strategy.(*CancelOrderAction).GenerateID(action)
  requires receiver: action != nil
  modifies [C27] action.ID, ghostvar("xid.n")
  ensures [C27] generated: action.ID == xid(old(ghost("xid.n"))) && ghost("xid.n") == old(ghost("xid.n")) + 1
  test [C27] generated: len(action.ID) == 20

func strategy.(*Actions).AddCancelOrders(a, actions)
  requires receiver: a != nil
  requires known-ids: idsBefore(a.CancelOrders, ghost("xid.n"))
  modifies [C27] a.CancelOrders, entries(a.CancelOrders), ghostvar("xid.n")
  ensures [C27] kept: keepsAll(a.CancelOrders, old(a.CancelOrders))
  ensures [C27] one-id-each: ghost("xid.n") == old(ghost("xid.n")) + len(actions)
  ensures [C27] each-added: forall(j, 0, len(actions), in(a.CancelOrders, xid(old(ghost("xid.n"))+j)) && a.CancelOrders[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameCancelOrderAction(a.CancelOrders[xid(old(ghost("xid.n"))+j)], actions[j]))
  ensures [C27] nothing-else: onlyNew(a.CancelOrders, old(a.CancelOrders))
  test [C27] count: entries(a.CancelOrders) == old(entries(a.CancelOrders)) + len(actions)
  test [C27] own-id: forallstr(k, implies(in(a.CancelOrders, k) && !old(in(a.CancelOrders, k)), a.CancelOrders[k].ID == k && len(k) == 20))
  test [C27] all-there: forall(j, 0, len(actions), !forallstr(k, !(in(a.CancelOrders, k) && !old(in(a.CancelOrders, k)) && sameCancelOrderAction(a.CancelOrders[k], actions[j]))))
  inv () :: idsBefore(a.CancelOrders, ghost("xid.n"))
  inv () :: keepsAll(a.CancelOrders, old(a.CancelOrders))
  inv () :: onlyNew(a.CancelOrders, old(a.CancelOrders))
  inv () :: a.CancelOrders != nil
  inv (I int) :: ghost("xid.n") == old(ghost("xid.n")) + I
  inv () :: forall(j, 0, ghost("xid.n") - old(ghost("xid.n")), in(a.CancelOrders, xid(old(ghost("xid.n"))+j)) && a.CancelOrders[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameCancelOrderAction(a.CancelOrders[xid(old(ghost("xid.n"))+j)], actions[j]))

macro sameUpdatePositionAction(x, y) = x.PositionID == y.PositionID && x.ActionType == y.ActionType && x.OrderType == y.OrderType && x.Volume == y.Volume && x.StopLoss == y.StopLoss && x.TakeProfit == y.TakeProfit && x.Slippage == y.Slippage

func strategy.(*UpdatePositionAction).GenerateID(action)
  requires receiver: action != nil
  modifies [C27] action.ID, ghostvar("xid.n")
  ensures [C27] generated: action.ID == xid(old(ghost("xid.n"))) && ghost("xid.n") == old(ghost("xid.n")) + 1
  test [C27] generated: len(action.ID) == 20

func strategy.(*Actions).AddUpdatePositions(a, actions)
  requires receiver: a != nil
  requires known-ids: idsBefore(a.UpdatePositions, ghost("xid.n"))
  modifies [C27] a.UpdatePositions, entries(a.UpdatePositions), ghostvar("xid.n")
  ensures [C27] kept: keepsAll(a.UpdatePositions, old(a.UpdatePositions))
  ensures [C27] one-id-each: ghost("xid.n") == old(ghost("xid.n")) + len(actions)
  ensures [C27] each-added: forall(j, 0, len(actions), in(a.UpdatePositions, xid(old(ghost("xid.n"))+j)) && a.UpdatePositions[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameUpdatePositionAction(a.UpdatePositions[xid(old(ghost("xid.n"))+j)], actions[j]))
  ensures [C27] nothing-else: onlyNew(a.UpdatePositions, old(a.UpdatePositions))
  test [C27] count: entries(a.UpdatePositions) == old(entries(a.UpdatePositions)) + len(actions)
  test [C27] own-id: forallstr(k, implies(in(a.UpdatePositions, k) && !old(in(a.UpdatePositions, k)), a.UpdatePositions[k].ID == k && len(k) == 20))
  test [C27] all-there: forall(j, 0, len(actions), !forallstr(k, !(in(a.UpdatePositions, k) && !old(in(a.UpdatePositions, k)) && sameUpdatePositionAction(a.UpdatePositions[k], actions[j]))))
  inv () :: idsBefore(a.UpdatePositions, ghost("xid.n"))
  inv () :: keepsAll(a.UpdatePositions, old(a.UpdatePositions))
  inv () :: onlyNew(a.UpdatePositions, old(a.UpdatePositions))
  inv () :: a.UpdatePositions != nil
  inv (I int) :: ghost("xid.n") == old(ghost("xid.n")) + I
  inv () :: forall(j, 0, ghost("xid.n") - old(ghost("xid.n")), in(a.UpdatePositions, xid(old(ghost("xid.n"))+j)) && a.UpdatePositions[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameUpdatePositionAction(a.UpdatePositions[xid(old(ghost("xid.n"))+j)], actions[j]))

macro sameClosePositionAction(x, y) = x.PositionID == y.PositionID

func strategy.(*ClosePositionAction).GenerateID(action)
  requires receiver: action != nil
  modifies [C27] action.ID, ghostvar("xid.n")
  ensures [C27] generated: action.ID == xid(old(ghost("xid.n"))) && ghost("xid.n") == old(ghost("xid.n")) + 1
  test [C27] generated: len(action.ID) == 20

func strategy.(*Actions).AddClosePositions(a, actions)
  requires receiver: a != nil
  requires known-ids: idsBefore(a.ClosePositions, ghost("xid.n"))
  modifies [C27] a.ClosePositions, entries(a.ClosePositions), ghostvar("xid.n")
  ensures [C27] kept: keepsAll(a.ClosePositions, old(a.ClosePositions))
  ensures [C27] one-id-each: ghost("xid.n") == old(ghost("xid.n")) + len(actions)
  ensures [C27] each-added: forall(j, 0, len(actions), in(a.ClosePositions, xid(old(ghost("xid.n"))+j)) && a.ClosePositions[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameClosePositionAction(a.ClosePositions[xid(old(ghost("xid.n"))+j)], actions[j]))
  ensures [C27] nothing-else: onlyNew(a.ClosePositions, old(a.ClosePositions))
  test [C27] count: entries(a.ClosePositions) == old(entries(a.ClosePositions)) + len(actions)
  test [C27] own-id: forallstr(k, implies(in(a.ClosePositions, k) && !old(in(a.ClosePositions, k)), a.ClosePositions[k].ID == k && len(k) == 20))
  test [C27] all-there: forall(j, 0, len(actions), !forallstr(k, !(in(a.ClosePositions, k) && !old(in(a.ClosePositions, k)) && sameClosePositionAction(a.ClosePositions[k], actions[j]))))
  inv () :: idsBefore(a.ClosePositions, ghost("xid.n"))
  inv () :: keepsAll(a.ClosePositions, old(a.ClosePositions))
  inv () :: onlyNew(a.ClosePositions, old(a.ClosePositions))
  inv () :: a.ClosePositions != nil
  inv (I int) :: ghost("xid.n") == old(ghost("xid.n")) + I
  inv () :: forall(j, 0, ghost("xid.n") - old(ghost("xid.n")), in(a.ClosePositions, xid(old(ghost("xid.n"))+j)) && a.ClosePositions[xid(old(ghost("xid.n"))+j)].ID == xid(old(ghost("xid.n"))+j) && sameClosePositionAction(a.ClosePositions[xid(old(ghost("xid.n"))+j)], actions[j]))

func strategy.(*Actions).AddAnnotations(a, action)
  requires receiver: a != nil
  requires separate: len(action) == 0 || ref(action) != ref(a.Annotations)
  // spare capacity of the list may be overwritten
  modifies [C27] a.Annotations, elems(a.Annotations)
  ensures [C27] count: len(a.Annotations) == old(len(a.Annotations)) + len(action)
  ensures [C27] kept: forall(j, 0, old(len(a.Annotations)), a.Annotations[j] == old(a.Annotations[j]))
  ensures [C27] appended: forall(j, 0, len(action), a.Annotations[old(len(a.Annotations)) + j] == old(action[j]))
  inv (I int) :: len(a.Annotations) == old(len(a.Annotations)) + I
  inv () :: old(len(a.Annotations)) <= len(a.Annotations) && forall(j, 0, old(len(a.Annotations)), a.Annotations[j] == old(a.Annotations[j]))
  inv (I int) :: forall(j, 0, I, a.Annotations[old(len(a.Annotations)) + j] == old(action[j]))
  inv () :: ref(a.Annotations) == old(ref(a.Annotations)) || fresh(a.Annotations)
  inv () :: a.CreateOrders == old(a.CreateOrders) && a.UpdateOrders == old(a.UpdateOrders) && a.CancelOrders == old(a.CancelOrders)
  inv () :: a.UpdatePositions == old(a.UpdatePositions) && a.ClosePositions == old(a.ClosePositions)

func strategy.NewAnnotation(t, price, label, tooltip) (r)
  modifies [C27] ghostvar("xid.n")
  safety [C27]
  ensures [C27] new: r != nil && fresh(r)
  ensures [C27] generated: r.ID == xid(old(ghost("xid.n"))) && ghost("xid.n") == old(ghost("xid.n")) + 1
  ensures [C27] carries: r.Time == t && r.Price == price && r.Label == label && r.Tooltip == tooltip
  test [C27] own-id: len(r.ID) == 20
