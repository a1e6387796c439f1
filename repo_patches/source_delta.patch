From c0607f5e3711ba76b2eb5d9ed371c025541ed4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 01/36] fix: do not skip or repeat entities when several are
 moved in one save

---
 snapshot.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index b32d016..fccd9e2 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -275,7 +275,8 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 
 	entities := map[IEntity]*entityChanged{}
 	for _, item := range changedItems {
-		for _, entity := range item.children {
+		// Remove 会原地修改 children，需要遍历拷贝，避免漏掉或者重复处理实体
+		for _, entity := range append([]IEntity{}, item.children...) {
 			prev, ok := entities[entity]
 			if !ok {
 				entities[entity] = item
-- 
2.43.0


From 95dda75b6f9b03d876c0decee7b2dfd773978bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 02/36] fix: handle children taken out of a deleted parent

---
 engine.go   |  1 +
 snapshot.go | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/engine.go b/engine.go
index ed20575..b50c5a9 100644
--- a/engine.go
+++ b/engine.go
@@ -881,6 +881,7 @@ func (e *Stage) unDirty() {
 
 func (e *Stage) getEntityChanged() ([]*entityChanged, error) {
 	changed := entityDiff(e.meta, e.snapshot)
+	changed = append(changed, detachedDiff(changed, e.snapshot)...)
 	// 处理实体移动的场景
 	changed, err := handleEntityMove(changed)
 	if err != nil {
diff --git a/snapshot.go b/snapshot.go
index fccd9e2..4df2766 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -267,6 +267,47 @@ func entityDiff(parent IEntity, pool entitySnapshotPool) []*entityChanged {
 	return res
 }
 
+// detachedDiff 查找从被删除实体下移出的子实体，它们不再属于被删除的实体，需要单独判定为删除（或者移动）
+func detachedDiff(changedItems []*entityChanged, pool entitySnapshotPool) []*entityChanged {
+	created := simpleSet{}
+	for _, item := range changedItems {
+		if item.changeType == newChildren {
+			for _, entity := range item.children {
+				created[entity] = 0
+			}
+		}
+	}
+
+	res := make([]*entityChanged, 0)
+	var find func(entities []IEntity)
+	find = func(entities []IEntity) {
+		for _, entity := range entities {
+			// 移动到其他父实体的不属于删除，差异已经在新的父实体下计算
+			if _, in := created[entity]; in || pool[entity] == nil {
+				continue
+			}
+			children := findChildren(entity)
+			for key, prev := range pool[entity].children {
+				if detached := makeEntitySet(prev).Diff(makeEntitySet(children[key])).ToSlice(); len(detached) > 0 {
+					res = append(res, &entityChanged{
+						changeType: deleteChildren,
+						parent:     entity,
+						key:        key,
+						children:   detached,
+					})
+				}
+				find(prev)
+			}
+		}
+	}
+	for _, item := range changedItems {
+		if item.changeType == deleteChildren {
+			find(item.children)
+		}
+	}
+	return res
+}
+
 func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 	// 按照 new, dirty, delete 的顺序排序
 	sort.SliceStable(changedItems, func(i, j int) bool {
-- 
2.43.0


From a24b41e928e5012692dfa8d98c4f8fd69ce47872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 03/36] fix: recursive delete deletes each entity once

---
 snapshot.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index 4df2766..e6d2efa 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -345,16 +345,32 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 }
 
 func recursiveDelete(changed []*entityChanged) []*entityChanged {
+	// 已经判定为删除的实体不重复删除
+	deleted := map[IEntity]bool{}
+	for _, item := range changed {
+		if item.changeType == deleteChildren {
+			for _, c := range item.children {
+				deleted[c] = true
+			}
+		}
+	}
 	for _, item := range changed {
 		if item.changeType == deleteChildren {
 			for _, c := range item.children {
 				if err := walk(c, item.parent, func(entity, parent IEntity, children map[string][]IEntity) error {
 					for key, entities := range children {
+						toDelete := make([]IEntity, 0, len(entities))
+						for _, child := range entities {
+							if !deleted[child] {
+								deleted[child] = true
+								toDelete = append(toDelete, child)
+							}
+						}
 						changed = append(changed, &entityChanged{
 							changeType: deleteChildren,
 							parent:     entity,
 							key:        key,
-							children:   entities,
+							children:   toDelete,
 						})
 					}
 					return nil
-- 
2.43.0


From 57561b6619807acc019bdbd6b41b78c49743666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 04/36] fix: refuse an existing entity that is kept under its
 parent and also placed under another

---
 engine.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/engine.go b/engine.go
index b50c5a9..90fe791 100644
--- a/engine.go
+++ b/engine.go
@@ -887,6 +887,17 @@ func (e *Stage) getEntityChanged() ([]*entityChanged, error) {
 	if err != nil {
 		return nil, err
 	}
+	// 已有的实体不会是新增，说明它仍保留在原来的父实体下，又出现在其他父实体下
+	for _, c := range changed {
+		if c.changeType != newChildren {
+			continue
+		}
+		for _, entity := range c.children {
+			if e.hasSnapshot(entity) {
+				return nil, fmt.Errorf("entity(id=%s type=%v) repeated", entity.GetID(), reflect.TypeOf(entity))
+			}
+		}
+	}
 	// 处理递归删除子实体
 	if e.options.RecursiveDelete {
 		changed = recursiveDelete(changed)
-- 
2.43.0


From 11137474b33e1078f885ad030be3d89d704784ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 05/36] fix: keep unsaved changes when another root is loaded
 or removed

---
 engine.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/engine.go b/engine.go
index 90fe791..77adacb 100644
--- a/engine.go
+++ b/engine.go
@@ -210,7 +210,7 @@ func (r *Repository) Get(ctx context.Context, root IEntity, children ...interfac
 	if err := r.stage.meta.Add(root); err != nil {
 		return err
 	}
-	return r.stage.updateSnapshot()
+	return r.stage.addSnapshot(root)
 }
 
 // CustomGet 自定义函数获取聚合根实体，并添加到快照
@@ -224,9 +224,12 @@ func (r *Repository) CustomGet(ctx context.Context, getter func(ctx context.Cont
 		if err := r.stage.meta.Add(root); err != nil {
 			return err
 		}
+		if err := r.stage.addSnapshot(root); err != nil {
+			return err
+		}
 	}
 
-	return r.stage.updateSnapshot()
+	return nil
 }
 
 // Add 添加聚合根到仓库
@@ -253,7 +256,7 @@ func (r *Repository) Remove(roots ...IEntity) {
 	}
 	if len(toCreate) > 0 {
 		r.Add(toCreate...)
-		if err := r.stage.updateSnapshot(); err != nil {
+		if err := r.stage.addSnapshot(toCreate...); err != nil {
 			r.appendError(err)
 			return
 		}
@@ -845,13 +848,30 @@ func childrenSnapshot(children map[string][]IEntity) map[string][]IEntity {
 
 func (e *Stage) flush() error {
 	e.snapshot = entitySnapshotPool{}
-	return e.updateSnapshot()
+	return e.updateSnapshot(e.meta, nil)
+}
+
+// addSnapshot 把已存在的聚合根加入快照，不影响其他聚合根还未保存的变更
+func (e *Stage) addSnapshot(roots ...IEntity) error {
+	for _, root := range roots {
+		if err := e.updateSnapshot(root, e.meta); err != nil {
+			return err
+		}
+	}
+
+	meta := e.snapshot[e.meta]
+	if meta == nil {
+		meta = &entitySnapshot{children: map[string][]IEntity{}}
+		e.snapshot[e.meta] = meta
+	}
+	meta.children["meta"] = append(meta.children["meta"], roots...)
+	return nil
 }
 
 // 更新快照，已有的不覆盖
-func (e *Stage) updateSnapshot() error {
-	return walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
-		if _, in := e.snapshot[entity]; in && entity != e.meta {
+func (e *Stage) updateSnapshot(root, parent IEntity) error {
+	return walk(root, parent, func(entity, parent IEntity, children map[string][]IEntity) error {
+		if _, in := e.snapshot[entity]; in {
 			return nil
 		}
 
-- 
2.43.0


From 5d70ece9be4b8455a68ab8169233ad5f3e23fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 06/36] fix: recognise a wrapped ErrEntityNotRegister when
 taking the snapshot

---
 engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 77adacb..28c4ddb 100644
--- a/engine.go
+++ b/engine.go
@@ -876,7 +876,7 @@ func (e *Stage) updateSnapshot(root, parent IEntity) error {
 		}
 
 		po, err := e.executor.Entity2Model(entity, parent, OpQuery)
-		if err != nil && !errors.Is(ErrEntityNotRegister, err) {
+		if err != nil && !errors.Is(err, ErrEntityNotRegister) {
 			return err
 		}
 		e.snapshot[entity] = &entitySnapshot{
-- 
2.43.0


From 53d218d94b26b5d87a2a6d1a6241f4b89af52a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 07/36] fix: post save hooks of one run do not overwrite those
 of another

---
 engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 28c4ddb..ab203d1 100644
--- a/engine.go
+++ b/engine.go
@@ -420,7 +420,10 @@ func WithIDGenerator(idGen IIDGenerator) IDGeneratorOption {
 type PostSaveOption PostSaveFunc
 
 func (t PostSaveOption) ApplyToOptions(opts *Options) {
-	opts.PostSaveHooks = append(opts.PostSaveHooks, PostSaveFunc(t))
+	// Options 会被多次运行共享，不能在原来的 slice 上追加
+	hooks := make([]PostSaveFunc, 0, len(opts.PostSaveHooks)+1)
+	hooks = append(hooks, opts.PostSaveHooks...)
+	opts.PostSaveHooks = append(hooks, PostSaveFunc(t))
 }
 
 func WithPostSave(f PostSaveFunc) PostSaveOption {
-- 
2.43.0


From c7cf53d3a6460e8f84354cc6cd10e2854b0452ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 08/36] fix: call checkers whose result is convertible to
 TXStatus

---
 event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 6624c12..7da65b2 100644
--- a/event.go
+++ b/event.go
@@ -211,7 +211,7 @@ func onTXChecker(evt *DomainEvent) TXStatus {
 	}
 
 	outs := checker.f.Call([]reflect.Value{bizEvt})
-	return outs[0].Interface().(TXStatus)
+	return outs[0].Convert(txStatusType).Interface().(TXStatus)
 }
 
 type IEvent interface {
-- 
2.43.0


From 0bbdebb381959bf85e6e2f915f0e3d82025535ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 09/36] fix: errors in a result can be matched with errors.Is

---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index ab203d1..86fee9f 100644
--- a/engine.go
+++ b/engine.go
@@ -129,6 +129,11 @@ func (e ErrList) Error() string {
 	return strings.Join(errs, ", ")
 }
 
+// Unwrap 支持 errors.Is 和 errors.As 匹配其中的错误
+func (e ErrList) Unwrap() []error {
+	return e
+}
+
 type Result struct {
 	Error   error
 	Break   bool
-- 
2.43.0


From 5f920bc8d3c466b263b495df433ccbd75113fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 10/36] fix: report failed adds and removes on the container of
 a command

---
 engine.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index 86fee9f..aa044eb 100644
--- a/engine.go
+++ b/engine.go
@@ -169,20 +169,20 @@ func (h DomainBuilder) Build(ctx context.Context, parent IEntity, children ...in
 // RootContainer 聚合根实体容器
 type RootContainer struct {
 	stage *Stage
-	errs  []error
+	errs  *[]error // RootContainer 以值传递给命令，错误需要共享
 }
 
 // Add 创建聚合根实体
 func (h *RootContainer) Add(root IEntity) {
 	if err := h.stage.meta.Add(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
 // Remove 删除聚合根实体
 func (h *RootContainer) Remove(root IEntity) {
 	if err := h.stage.meta.Remove(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
@@ -803,11 +803,12 @@ func (e *Stage) runCommand(ctx context.Context, c ICommand) *Result {
 			return err
 		}
 
-		container := RootContainer{stage: repo.stage}
+		var errs []error
+		container := RootContainer{stage: repo.stage, errs: &errs}
 		if err := c.Act(ctx, container, buildRoots...); err != nil {
 			return err
-		} else if len(container.errs) > 0 {
-			return ErrList(container.errs)
+		} else if len(errs) > 0 {
+			return ErrList(errs)
 		}
 		return nil
 	}).Save(ctx)
-- 
2.43.0


From a7a4c63c4ac32722f9a21b909e724edacbb6f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 11/36] fix: refuse event handlers whose context argument
 cannot be given

---
 event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 7da65b2..ab6dd42 100644
--- a/event.go
+++ b/event.go
@@ -100,7 +100,7 @@ func RegisterEventHandler(t EventType, handler EventHandler) {
 	if handlerType.Kind() != reflect.Func {
 		panic("handler must type of reflect.Func")
 	}
-	if handlerType.NumIn() != 2 || !handlerType.In(0).Implements(ctxType) {
+	if handlerType.NumIn() != 2 || !handlerType.In(0).Implements(ctxType) || !ctxType.AssignableTo(handlerType.In(0)) {
 		panic("handler must has 2 args and the first must be type of context.Context")
 	}
 	if handlerType.NumOut() != 1 || !handlerType.Out(0).Implements(errType) {
-- 
2.43.0


From fd66b38457df619b37e02407f178d5f5bcf5a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 12/36] fix: store events and their delivery records in one
 transaction

Dispatch opened a transaction but wrote outside it.
---
 eventbus/mysql/eventbus.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index def97c7..83358df 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -269,12 +269,12 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 	}
 	// return e.getDB(ctx).Create(pos).Error
 	// 在创建event的时候顺带创建service_event，在消费时创建service_event 非常复杂，必须联表查询容易导致慢sql 问题，且容易漏建service_event。
-	return e.db.Transaction(func(tx *gorm.DB) error {
-		if err := e.getDB(ctx).Create(pos).Error; err != nil {
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		if err := db.Create(pos).Error; err != nil {
 			return err
 		}
 		// gorm 在创建po后为对象赋值主键自增id
-		serviceNames, err := e.listService()
+		serviceNames, err := e.listService(db)
 		if err != nil {
 			return err
 		}
@@ -290,7 +290,7 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 					NextTime: po.EventCreatedAt,
 				}
 			}
-			if err := e.getDB(ctx).Create(spos).Error; err != nil {
+			if err := db.Create(spos).Error; err != nil {
 				return err
 			}
 		}
@@ -363,9 +363,9 @@ func (e *EventBus) initService() error {
 	return e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error
 }
 
-func (e *EventBus) listService() ([]string, error) {
+func (e *EventBus) listService(db *gorm.DB) ([]string, error) {
 	services := make([]*ServicePO, 0)
-	if err := e.db.Find(&services).Error; err != nil {
+	if err := db.Find(&services).Error; err != nil {
 		return nil, err
 	}
 	serviceNames := make([]string, 0)
-- 
2.43.0


From c61fb6a34b48f2433b4e2dcbc73e02d2c40d65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 13/36] fix: pair delivery records with their own events

---
 eventbus/mysql/eventbus.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 83358df..84ce8c6 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -425,13 +425,16 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {
 		return nil, err
 	}
-	// eventPO与serviceEventPO 都按event id排序才能进行下一步
-	events := make([]*EventTuple, 0)
-	for index, eventPO := range eventPOs {
-		events = append(events, &EventTuple{
-			ServiceEvent: serviceEventPOs[index],
-			Event:        eventPO,
-		})
+	// 按event id 匹配，event 可能已经不存在，不能按位置对应
+	eventByID := make(map[int64]*EventPO, len(eventPOs))
+	for _, eventPO := range eventPOs {
+		eventByID[eventPO.ID] = eventPO
+	}
+	events := make([]*EventTuple, 0, len(eventPOs))
+	for _, serviceEvent := range serviceEventPOs {
+		if eventPO, ok := eventByID[serviceEvent.EventID]; ok {
+			events = append(events, &EventTuple{ServiceEvent: serviceEvent, Event: eventPO})
+		}
 	}
 	return events, nil
 }
-- 
2.43.0


From e9125af5319d314e34473ed007fa7797cf314c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 14/36] fix: the preceding event among events of the same time
 is the one stored last

---
 eventbus/mysql/eventbus.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 84ce8c6..ab4c767 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -497,10 +497,10 @@ func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *Servi
 	// 找到前序event
 	precedingEvent := &EventPO{}
 	if err := tx.Where("sender = ?", eventPO.Sender).
-		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用event_id 明确下
+		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用自增id 明确下
 		Where("event_created_at <= ?", eventPO.EventCreatedAt).
 		Where("id < ?", eventPO.ID).
-		Order("event_created_at desc, event_id desc").Take(precedingEvent).Error; err != nil {
+		Order("event_created_at desc, id desc").Take(precedingEvent).Error; err != nil {
 		if !errors.Is(err, gorm.ErrRecordNotFound) {
 			e.logger.V(logger.LevelInfo).Info("find preceding event error", "current event_id", spo.EventID, "err", err)
 			return err
-- 
2.43.0


From 11d36558c090681480ec540c26f2c2cafdd332a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 15/36] fix: a failure message that is not valid UTF-8 does not
 keep the failure from being recorded

---
 eventbus/mysql/eventbus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index ab4c767..f087701 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"runtime/debug"
+	"strings"
 	"sync"
 	"time"
 	"unicode/utf8"
@@ -574,6 +575,8 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			if len(spo.FailedMessage) > 65535 {
 				spo.FailedMessage = spo.FailedMessage[:65535]
 			}
+			// 截断可能破坏多字节字符，非法的 utf8 会导致整条记录无法保存
+			spo.FailedMessage = strings.ToValidUTF8(spo.FailedMessage, "")
 			spo.RunAt = time.Now()
 			// 插入或更新 service_event。 此处必须覆盖掉err 的值，目的是保证service_event 一定进到db
 			if err = tx.Save(spo).Error; err != nil {
-- 
2.43.0


From c0c491c44c168f43a22adaffd6f5be6ab218cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 16/36] fix: two executors made in the same second do not share
 transactions

---
 executor/mysql/executor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 8c8a3e2..08452be 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -19,7 +19,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
-	"time"
+	"sync/atomic"
 
 	ddd "github.com/bytedance/dddfirework"
 	"gorm.io/gorm"
@@ -145,10 +145,13 @@ type Executor struct {
 	txKey contextKey
 }
 
+// executorSeq 保证每个 Executor 的 txKey 不同
+var executorSeq int64
+
 func NewExecutor(db *gorm.DB) *Executor {
 	return &Executor{
 		db:    db,
-		txKey: contextKey(fmt.Sprintf("executor_tx_%d", time.Now().Unix())),
+		txKey: contextKey(fmt.Sprintf("executor_tx_%d", atomic.AddInt64(&executorSeq, 1))),
 	}
 }
 
-- 
2.43.0


From c9ded42f3bb98566caf30e8767e4e8d02c5c9ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 17/36] fix: two event buses made in the same second do not
 share transactions

---
 eventbus/mysql/eventbus.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index f087701..0e92b6d 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -22,6 +22,7 @@ import (
 	"runtime/debug"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 	"unicode/utf8"
 
@@ -57,6 +58,9 @@ var ErrPrecedingEventNotReady = fmt.Errorf("preceding event not ready")
 var defaultLogger = stdr.NewStdr("mysql_eventbus")
 var eventBusMu sync.Mutex
 
+// eventBusSeq 保证每个 EventBus 的 txKey 不同
+var eventBusSeq int64
+
 type IRetryStrategy interface {
 	// Next 获取下一次重试的策略，返回 nil 表示不再重试
 	// 当 RetryInfo.RetryCount == 0 表示初始化状态，通过 Next 获取第一次重试信息
@@ -212,7 +216,7 @@ func NewEventBus(serviceName string, db *gorm.DB, options ...Option) *EventBus {
 		logger:        opt.Logger,
 		retryStrategy: strategy,
 		opt:           opt,
-		txKey:         contextKey(fmt.Sprintf("eventbus_tx_%d", time.Now().Unix())),
+		txKey:         contextKey(fmt.Sprintf("eventbus_tx_%d", atomic.AddInt64(&eventBusSeq, 1))),
 		cleanCron:     cron.New(),
 	}
 	_ = eb.initService()
-- 
2.43.0


From 93ae4c9b1c1d300f745cb8d1548041b46520b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 18/36] fix: committing a transaction whose events are already
 dispatched finishes it

---
 eventbus/mysql/eventbus.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 0e92b6d..c73de05 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -331,10 +331,11 @@ func (e *EventBus) Commit(ctx context.Context) error {
 	}
 
 	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
-	if err != gorm.ErrRecordNotFound {
+	if err != nil && !errors.Is(err, gorm.ErrRecordNotFound) {
 		return err
 	}
-	if err == gorm.ErrRecordNotFound {
+	// 事件已经发送过的，只需要结束事务
+	if err != nil {
 		err := e.Dispatch(ctx, tx.Events...)
 		if err != nil {
 			return err
-- 
2.43.0


From a91cc5c9afd1b4ced1038cb124671d546c915ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 19/36] fix: clean at two every night by default, not every
 hour

---
 eventbus/mysql/eventbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index c73de05..2839f3b 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -41,7 +41,7 @@ const retryLimit = 5
 const runInterval = time.Millisecond * 100
 
 // 每天凌晨两点执行clean
-const cleanCron = "0 2 * * *"
+const cleanCron = "0 0 2 * * *"
 
 // 消费完成的event保留一段时间以便追查问题
 const retentionTime = 48 * time.Hour
-- 
2.43.0


From 24dee5469e4e0cd39db5b4e5b0a875b47cda9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 20/36] fix: do not take over a database lock that was renewed
 in the meantime

---
 lock/db/sql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 9657786..6523ede 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -115,9 +115,10 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		// key is locked
 		return nil, dddfirework.ErrEntityLocked
 	}
-	// 有记录但是数据过期
+	// 有记录但是数据过期，必须确认期间没有被续期
 	res := r.db.WithContext(ctx).Model(&ResourceLock{}).Where("resource = ?", key).
 		Where("locker_id = ?", lock.LockerID).
+		Where("updated_at = ?", lock.UpdatedAt).
 		UpdateColumns(ResourceLock{UpdatedAt: time.Now(), LockerID: lockerID})
 
 	if res.Error != nil {
-- 
2.43.0


From b467a4f3bf640a3882517cc8fd8aede29bece84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 21/36] fix: a lock created by another caller at the same
 moment is reported as locked

---
 lock/db/sql.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 6523ede..3a34800 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -103,7 +103,7 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		l := &ResourceLock{Resource: key, LockerID: lockerID}
 		err = r.db.WithContext(ctx).Create(l).Error
 		if err != nil {
-			if errors.Is(err, gorm.ErrDuplicatedKey) {
+			if r.isDuplicatedKey(err) {
 				return nil, dddfirework.ErrEntityLocked
 			}
 			return nil, fmt.Errorf("failed to create resource %s lock, err: %w", key, err)
@@ -132,6 +132,14 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 	return &lock, nil
 }
 
+// isDuplicatedKey 没有开启 gorm 的 TranslateError 时，需要转换数据库自身的错误
+func (r *DBLock) isDuplicatedKey(err error) bool {
+	if translator, ok := r.db.Dialector.(gorm.ErrorTranslator); ok {
+		err = translator.Translate(err)
+	}
+	return errors.Is(err, gorm.ErrDuplicatedKey)
+}
+
 func (r *DBLock) UnLock(ctx context.Context, keyLock interface{}) error {
 	l := keyLock.(*ResourceLock)
 	res := r.db.WithContext(ctx).Where("locker_id = ? and resource = ?", l.LockerID, l.Resource).Delete(&ResourceLock{})
-- 
2.43.0


From 14d8ba84bcf971220d623f7e59a3c05dd44c9025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 22/36] fix: the renewal of a database lock ends with the run
 it belongs to

---
 lock/db/sql.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 3a34800..1e1e635 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -182,13 +182,20 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 	// 业务函数执行完成后，会停止renew 协程
 	defer ticker.Stop()
 	subCtx, cancel := context.WithCancel(ctx)
+	// ticker 停止后不会关闭 channel，需要通过 ctx 通知 renew 协程退出
+	defer cancel()
 	go func() {
-		for range ticker.C {
-			if err = r.update(ctx, locker); err != nil {
+		for {
+			select {
+			case <-subCtx.Done():
+				return
+			case <-ticker.C:
+			}
+			if err := r.update(ctx, locker); err != nil {
 				// 续期失败，会通知业务函数停止执行
 				cancel()
 				r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
-				break
+				return
 			}
 		}
 	}()
-- 
2.43.0


From d7c9815a4dead123efe79f2fd439000a77090a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 23/36] fix: a guarded run releases its lock also when its
 caller is cancelled

---
 lock/db/sql.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 1e1e635..cf95239 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -167,13 +167,21 @@ func (r *DBLock) update(ctx context.Context, keyLock interface{}) error {
 	return nil
 }
 
+// uncancelled 保留 ctx 的值，但不会随 ctx 被取消
+type uncancelled struct{ context.Context }
+
+func (uncancelled) Deadline() (deadline time.Time, ok bool) { return }
+func (uncancelled) Done() <-chan struct{}                   { return nil }
+func (uncancelled) Err() error                              { return nil }
+
 func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Context)) error {
 	locker, err := r.Lock(ctx, key)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		if err = r.UnLock(ctx, locker); err != nil {
+		// ctx 被取消后也必须释放锁
+		if err := r.UnLock(uncancelled{ctx}, locker); err != nil {
 			r.logger.Error(err, fmt.Sprintf("failed to unlock %s", key))
 		}
 	}() // pass parent ctx in here, or defer will use sub ctx below
-- 
2.43.0


From efa2eb82978ba9c28a55ecab0f7826210d239da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 24/36] fix: the locks of a run are released also when its
 caller is cancelled

---
 engine.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index aa044eb..83df008 100644
--- a/engine.go
+++ b/engine.go
@@ -23,6 +23,7 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"time"
 
 	"github.com/go-logr/logr"
 	"github.com/rs/xid"
@@ -1246,6 +1247,13 @@ func (e *Stage) do(ctx context.Context) *Result {
 
 type doSave func(ctx context.Context) *Result
 
+// uncancelled 保留 ctx 的值，但不会随 ctx 被取消
+type uncancelled struct{ context.Context }
+
+func (uncancelled) Deadline() (deadline time.Time, ok bool) { return }
+func (uncancelled) Done() <-chan struct{}                   { return nil }
+func (uncancelled) Err() error                              { return nil }
+
 func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 	return func(ctx context.Context) *Result {
 		sort.Strings(lockKeys)
@@ -1269,7 +1277,8 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 		}
 		defer func() {
 			for _, l := range ls {
-				if err := e.locker.UnLock(ctx, l); err != nil {
+				// ctx 被取消后也必须释放锁
+				if err := e.locker.UnLock(uncancelled{ctx}, l); err != nil {
 					e.logger.Error(err, "unlock failed")
 				}
 			}
-- 
2.43.0


From c687c4f3161c30f3c99ef4e9eba80c8d0eb56857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 25/36] fix: do not handle an event another instance has
 handled in the meantime

---
 eventbus/mysql/eventbus.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 2839f3b..dfad260 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -564,11 +564,12 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			e.logger.Info("find and lock current service_event error", "current event_id", po.ID, "err", err)
 			return err
 		}
-		// 二次确认下service_event 未被处理
-		if spo.Status != ServiceEventStatusInit {
-			e.logger.V(logger.LevelInfo).Info("current service_event'status it not init, ignore", "event_id", spo.EventID)
+		// 二次确认下service_event 未被处理，加锁前其他实例可能已经处理过，必须以加锁后的记录为准
+		if currentServiceEvent.Status != ServiceEventStatusInit || currentServiceEvent.NextTime.After(time.Now()) {
+			e.logger.V(logger.LevelInfo).Info("current service_event is handled by others, ignore", "event_id", spo.EventID)
 			return nil
 		}
+		*spo = *currentServiceEvent
 		defer func() {
 			if r := recover(); r != nil {
 				err := fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))
-- 
2.43.0


From 71b9e96bb812dd2769b02a02cee67ebb5e792354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 26/36] fix: the memory bus ends when its context is cancelled

---
 eventbus/mem/eventbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 5e75442..8075756 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -53,7 +53,7 @@ func (e *MemoryEventBus) Start(ctx context.Context) {
 			case evt := <-e.ch:
 				_ = e.cb(ctx, evt)
 			case <-ctx.Done():
-				break
+				return
 			}
 		}
 	}
-- 
2.43.0


From cf6ff236922903ce534350a576ad059e9179ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 27/36] fix: cancelling a timer leaves the timers of other
 services alone

---
 d_timer/sql/timer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 8d39b7b..e5aafa8 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -90,7 +90,8 @@ func (t *DBTimer) RunOnce(key string, runTime time.Time, data []byte) error {
 }
 
 func (t *DBTimer) Cancel(key string) error {
-	return t.db.Unscoped().Where(TimerJob{Key: key}).Delete(&TimerJob{}).Error
+	// 只能删除当前 service 的定时
+	return t.db.Unscoped().Where("`service` = ? and `key` = ?", t.service, key).Delete(&TimerJob{}).Error
 }
 
 func (t *DBTimer) run(job *TimerJob) error {
-- 
2.43.0


From 398c8faea5cfa9249836028752bb47f027883723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 28/36] fix: a panicking timer callback does not keep other
 timers from running

---
 d_timer/sql/timer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index e5aafa8..0bd76a8 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -2,8 +2,10 @@ package sql
 
 import (
 	"context"
+	"fmt"
 	stdlog "log"
 	"os"
+	"runtime/debug"
 	"sync"
 	"time"
 
@@ -108,6 +110,16 @@ func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
 	t.cb = cb
 }
 
+// callback 回调函数 panic 等同于执行失败，不能影响其他定时任务
+func (t *DBTimer) callback(ctx context.Context, job *TimerJob) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))
+		}
+	}()
+	return t.cb(ctx, job.Key, job.Cron, job.Payload)
+}
+
 func (t *DBTimer) handleJobs(ctx context.Context) error {
 	jobs := make([]*TimerJob, 0)
 	if err := t.db.Where(
@@ -131,7 +143,7 @@ func (t *DBTimer) handleJobs(ctx context.Context) error {
 				return nil
 			}
 
-			if err := t.cb(ctx, job.Key, job.Cron, job.Payload); err != nil {
+			if err := t.callback(ctx, job); err != nil {
 				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
 			}
 			if err := job.Next(); err != nil {
-- 
2.43.0


From c116638914d791202273a9304cc00a26ec16f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 29/36] fix: timers that are due before a handler is registered
 wait for it

---
 d_timer/sql/timer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 0bd76a8..18ae81a 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -171,6 +171,10 @@ func (t *DBTimer) Start(ctx context.Context) {
 			// 定时触发event_handler
 			ticker := time.NewTicker(t.opt.RunInterval)
 			for range ticker.C {
+				// 还没有注册回调函数，到期的定时等注册后再处理
+				if t.cb == nil {
+					continue
+				}
 				if err := t.handleJobs(context.Background()); err != nil {
 					t.logger.Error(err, "handle job failed")
 				}
-- 
2.43.0


From 2a7dbe3b3043ffd53ee68b893fd9c2ddb86c4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 30/36] fix: a timer key registered by another instance at the
 same moment is accepted

---
 d_timer/sql/timer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 18ae81a..7186c9a 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -2,6 +2,7 @@ package sql
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	stdlog "log"
 	"os"
@@ -100,12 +101,29 @@ func (t *DBTimer) run(job *TimerJob) error {
 	if err := job.Reset(); err != nil {
 		return err
 	}
+	err := t.firstOrCreate(job)
+	if err != nil && t.isDuplicatedKey(err) {
+		// 其他实例同时注册了同一个 key
+		err = t.firstOrCreate(job)
+	}
+	return err
+}
+
+func (t *DBTimer) firstOrCreate(job *TimerJob) error {
 	return t.db.Where(TimerJob{
 		Service: t.service,
 		Key:     job.Key,
 	}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
 }
 
+// isDuplicatedKey 没有开启 gorm 的 TranslateError 时，需要转换数据库自身的错误
+func (t *DBTimer) isDuplicatedKey(err error) bool {
+	if translator, ok := t.db.Dialector.(gorm.ErrorTranslator); ok {
+		err = translator.Translate(err)
+	}
+	return errors.Is(err, gorm.ErrDuplicatedKey)
+}
+
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
 	t.cb = cb
 }
-- 
2.43.0


From 304ffd6a7760c56ae4b09440766527c914d9605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 31/36] fix: an update of embedded structs with fields of the
 same name writes the right columns

---
 executor/mysql/diff.go     | 39 ++++++++++++++++++++++++++++++++++++++
 executor/mysql/executor.go |  5 ++++-
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index e93aecc..c015f03 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -16,9 +16,13 @@
 package mysql
 
 import (
+	"context"
 	"reflect"
 	"strings"
 	"sync"
+
+	"gorm.io/gorm"
+	"gorm.io/gorm/schema"
 )
 
 var schemaCache = &sync.Map{}
@@ -108,3 +112,38 @@ func DiffModel(curr, prev interface{}) []string {
 	}
 	return diffStruct(currVal, prevVal)
 }
+
+// diffColumns 模型差异对比，返回需要更新的字段或者列
+// DiffModel 返回的是字段名，多个 embedded 结构存在同名字段时，字段名不能确定是哪一列，需要按列比对
+func diffColumns(db *gorm.DB, curr, prev interface{}) ([]string, error) {
+	fields := DiffModel(curr, prev)
+	if len(fields) == 0 {
+		return nil, nil
+	}
+	s, err := schema.Parse(curr, schemaCache, db.NamingStrategy)
+	if err != nil {
+		return nil, err
+	}
+	columns := map[string][]*schema.Field{}
+	for _, f := range s.Fields {
+		if f.DBName != "" {
+			columns[f.Name] = append(columns[f.Name], f)
+		}
+	}
+	ctx := context.Background()
+	result := make([]string, 0, len(fields))
+	for _, name := range fields {
+		if len(columns[name]) < 2 {
+			result = append(result, name)
+			continue
+		}
+		for _, f := range columns[name] {
+			currVal, _ := f.ValueOf(ctx, reflect.ValueOf(curr))
+			prevVal, _ := f.ValueOf(ctx, reflect.ValueOf(prev))
+			if _, diff := diffValue(reflect.ValueOf(currVal), reflect.ValueOf(prevVal)); diff {
+				result = append(result, f.DBName)
+			}
+		}
+	}
+	return result, nil
+}
diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 08452be..6ec5a71 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -87,7 +87,10 @@ var opMap = map[ddd.OpType]execFunc{
 	ddd.OpUpdate: func(db *gorm.DB, a *ddd.Action) error {
 		for i, m := range a.Models {
 			if len(a.PrevModels) > i {
-				fields := DiffModel(m, a.PrevModels[i])
+				fields, err := diffColumns(db, m, a.PrevModels[i])
+				if err != nil {
+					return err
+				}
 				if len(fields) == 0 {
 					continue
 				}
-- 
2.43.0


From ef8c3f3ac4b9e997b071b8aca51d26112fb8f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 32/36] fix: report a lock held for the whole wait as locked in
 the redis lock

Without a deadline redislock waits at most the time-to-live, and for a time-to-live
below three seconds a contended lock ended in context.DeadlineExceeded instead of ErrEntityLocked.
---
 lock/redis/redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lock/redis/redis.go b/lock/redis/redis.go
index 90a6e92..8a7a5d0 100644
--- a/lock/redis/redis.go
+++ b/lock/redis/redis.go
@@ -17,6 +17,7 @@ package redis
 
 import (
 	"context"
+	"errors"
 	"time"
 
 	"github.com/bsm/redislock"
@@ -40,6 +41,9 @@ func (r *RedisLock) Lock(ctx context.Context, key string) (keyLock interface{},
 		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)},
 	); err == redislock.ErrNotObtained {
 		return nil, dddfirework.ErrEntityLocked
+	} else if errors.Is(err, context.DeadlineExceeded) && ctx.Err() == nil {
+		// ctx 没有 deadline 时，redislock 最多等待 ttl，超时意味着锁一直被占用
+		return nil, dddfirework.ErrEntityLocked
 	}
 	return
 }
-- 
2.43.0


From e8fecdb8cdb423045587b2bc79b1a2d553754581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:13 +0000
Subject: [PATCH 33/36] fix: do not report equal times and structs with
 unexported fields as changed

---
 executor/mysql/diff.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index c015f03..8ba839c 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -20,6 +20,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"time"
 
 	"gorm.io/gorm"
 	"gorm.io/gorm/schema"
@@ -64,6 +65,8 @@ func diffValue(a, b reflect.Value) (fields []string, diff bool) {
 		return
 	}
 	switch {
+	case a.Kind() == reflect.Struct && sameStruct(a, b):
+		diff = false
 	case a.Kind() == reflect.Struct:
 		fields = diffStruct(a, b)
 		diff = len(fields) > 0
@@ -77,6 +80,20 @@ func diffValue(a, b reflect.Value) (fields []string, diff bool) {
 	return
 }
 
+// sameStruct 判断两个 struct 的值是否相同，未导出字段（比如 time.Time 的时区）不能逐个对比
+func sameStruct(a, b reflect.Value) bool {
+	if !a.CanInterface() || !b.CanInterface() {
+		return false
+	}
+	x, y := a.Interface(), b.Interface()
+	if t1, ok := x.(time.Time); ok {
+		if t2, ok := y.(time.Time); ok {
+			return t1.Equal(t2)
+		}
+	}
+	return reflect.DeepEqual(x, y)
+}
+
 func diffStruct(currVal, prevVal reflect.Value) []string {
 	result := make([]string, 0)
 	poType := currVal.Type()
-- 
2.43.0


From f2091520600460bbd2e5fcfce00e78c96be4c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:21 +0000
Subject: [PATCH 34/36] fix: do not reorder the lock keys of the command

---
 engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 83df008..61b7daf 100644
--- a/engine.go
+++ b/engine.go
@@ -1254,7 +1254,8 @@ func (uncancelled) Deadline() (deadline time.Time, ok bool) { return }
 func (uncancelled) Done() <-chan struct{}                   { return nil }
 func (uncancelled) Err() error                              { return nil }
 
-func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
+func (e *Stage) runOnLock(f doSave, keys ...string) doSave {
+	lockKeys := append([]string{}, keys...)
 	return func(ctx context.Context) *Result {
 		sort.Strings(lockKeys)
 		for i := 1; i < len(lockKeys); i++ {
-- 
2.43.0


From 52477258d458f96ef923001d1d1f98fba1130d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:33 +0000
Subject: [PATCH 35/36] fix: a check-back that panics leaves its transaction
 for the next poll

---
 eventbus/mysql/eventbus.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index dfad260..b797a12 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -644,10 +644,22 @@ func (e *EventBus) handleEvents() error {
 	return nil
 }
 
+// askTX 回查 panic 时不确定事务的结果，留待下次回查
+func (e *EventBus) askTX(evt *dddfirework.DomainEvent) (st dddfirework.TXStatus) {
+	defer func() {
+		if r := recover(); r != nil {
+			err := fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))
+			e.logger.Error(err, fmt.Sprintf("panic while checking event(%s)", evt.ID))
+			st = dddfirework.TXUnknown
+		}
+	}()
+	return e.txChecker(evt)
+}
+
 func (e *EventBus) checkTX(ctx context.Context, tx *Transaction) {
 	ctx = e.ctxWithTX(ctx, tx)
 	evt := tx.Events[0]
-	st := e.txChecker(evt)
+	st := e.askTX(evt)
 	if st == dddfirework.TXCommit {
 		if err := e.Commit(ctx); err != nil {
 			e.logger.Error(err, "[eventbus] commit failed after tx check timeout")
-- 
2.43.0


From 9db2a898bd6deb9cab989456a0e68125e499e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:05 +0000
Subject: [PATCH 36/36] fix: a handler that panics does not end the memory bus

---
 eventbus/mem/eventbus.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 8075756..3bdc120 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -17,11 +17,16 @@ package mem
 
 import (
 	"context"
+	"fmt"
+	"runtime/debug"
 	"sync"
 
 	"github.com/bytedance/dddfirework"
+	"github.com/bytedance/dddfirework/logger/stdr"
 )
 
+var defaultLogger = stdr.NewStdr("memory_eventbus")
+
 type MemoryEventBus struct {
 	ch chan *dddfirework.DomainEvent
 	cb dddfirework.DomainEventHandler
@@ -43,7 +48,16 @@ func (e *MemoryEventBus) Dispatch(ctx context.Context, evts ...*dddfirework.Doma
 }
 
 func (e *MemoryEventBus) RegisterEventHandler(cb dddfirework.DomainEventHandler) {
-	e.cb = cb
+	// cb panic 等同于处理失败，不能影响其他事件
+	e.cb = func(ctx context.Context, evt *dddfirework.DomainEvent) (err error) {
+		defer func() {
+			if r := recover(); r != nil {
+				err = fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))
+				defaultLogger.Error(err, fmt.Sprintf("panic while handling event(%s)", evt.ID))
+			}
+		}()
+		return cb(ctx, evt)
+	}
 }
 
 func (e *MemoryEventBus) Start(ctx context.Context) {
-- 
2.43.0

