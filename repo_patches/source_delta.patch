From e6ded2eba6325570d8e687bd7bdaed92ef6ca7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 01/23] fix: restore the size when decoding Metadata

---
 unixfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unixfs.go b/unixfs.go
index f5020e0..643dbf6 100644
--- a/unixfs.go
+++ b/unixfs.go
@@ -365,6 +365,7 @@ func MetadataFromBytes(b []byte) (*Metadata, error) {
 	}
 	md := new(Metadata)
 	md.MimeType = pbm.GetMimeType()
+	md.Size = pbd.GetFilesize()
 	return md, nil
 }
 
-- 
2.43.0


From 4a530dd20ffb32ac772a9a9670db460dff5b2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 02/23] fix: return an error when resolving an empty path in a
 sharded directory

---
 io/resolve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/resolve.go b/io/resolve.go
index 0c2cb6e..30ee49f 100644
--- a/io/resolve.go
+++ b/io/resolve.go
@@ -23,7 +23,7 @@ func ResolveUnixfsOnce(ctx context.Context, ds ipld.NodeGetter, nd ipld.Node, na
 			return nd.ResolveLink(names)
 		}
 
-		if fsn.Type() == ft.THAMTShard {
+		if fsn.Type() == ft.THAMTShard && len(names) > 0 {
 			rods := dag.NewReadOnlyDagService(ds)
 			s, err := hamt.NewHamtFromDag(rods, nd)
 			if err != nil {
-- 
2.43.0


From dc21132f65b784a2a3bb5fa7cc3806d122a4cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 03/23] fix: reject malformed HAMT shards instead of panicking

---
 hamt/hamt.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index e789aa8..5807c39 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -165,7 +165,13 @@ func NewHamtFromDag(dserv ipld.DAGService, nd ipld.Node) (*Shard, error) {
 		return nil, err
 	}
 
+	if len(fsn.Data()) > size/8 {
+		return nil, fmt.Errorf("hamt bitfield too large (%d bytes) for a width of %d", len(fsn.Data()), size)
+	}
 	ds.childer.makeChilder(fsn.Data(), pbnd.Links())
+	if ones := ds.childer.bitfield.Ones(); ones != len(pbnd.Links()) {
+		return nil, fmt.Errorf("hamt bitfield has %d bits set for %d links (likely corrupt bitfield)", ones, len(pbnd.Links()))
+	}
 
 	ds.hashFunc = fsn.HashType()
 	ds.builder = pbnd.CidBuilder()
@@ -209,6 +215,9 @@ func (ds *Shard) Node() (ipld.Node, error) {
 		} else {
 			// child unloaded, just copy in link with updated name
 			lnk := ds.childer.link(sliceIndex)
+			if _, err := ds.childLinkType(lnk); err != nil {
+				return nil, err
+			}
 			label := lnk.Name[ds.maxpadlen:]
 
 			err := out.AddRawLink(ds.linkNamePrefix(childIndex)+label, lnk)
-- 
2.43.0


From 796c4ddd1e8891da9ab302d9a85c2e89689791e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 04/23] fix: report cancellation when enumerating a sharded
 directory

---
 hamt/hamt.go    | 3 ++-
 io/directory.go | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 5807c39..82b5733 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -407,7 +407,8 @@ func (ds *Shard) EnumLinks(ctx context.Context) ([]*ipld.Link, error) {
 		}
 		links = append(links, linkResult.Link)
 	}
-	return links, nil
+	// The enumeration also stops early, without an error, if `ctx` is done.
+	return links, ctx.Err()
 }
 
 // ForEachLink walks the Shard and calls the given function.
diff --git a/io/directory.go b/io/directory.go
index a0ec307..b554619 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -516,10 +516,10 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 	partialSize := 0
 
 	// We stop the enumeration once we have enough information and exit this function.
-	ctx, cancel := context.WithCancel(ctx)
+	enumCtx, cancel := context.WithCancel(ctx)
 	defer cancel()
 
-	for linkResult := range d.EnumLinksAsync(ctx) {
+	for linkResult := range d.EnumLinksAsync(enumCtx) {
 		if linkResult.Err != nil {
 			return false, linkResult.Err
 		}
@@ -532,6 +532,11 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 		}
 	}
 
+	// The enumeration also stops early, without an error, if `ctx` is done.
+	if err := ctx.Err(); err != nil {
+		return false, err
+	}
+
 	// We enumerated *all* links in all shards and didn't reach the threshold.
 	return true, nil
 }
-- 
2.43.0


From 5d7e9c65058264626f1d2a12c31880849b097f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 05/23] fix: stop the HAMT size enumeration before modifying
 the directory

---
 io/directory.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index b554619..3d9f14e 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -516,10 +516,17 @@ func (d *HAMTDirectory) sizeBelowThreshold(ctx context.Context, sizeChange int)
 	partialSize := 0
 
 	// We stop the enumeration once we have enough information and exit this function.
+	// Wait for it to stop before returning: it walks the in-memory shards that
+	// the caller is about to modify.
 	enumCtx, cancel := context.WithCancel(ctx)
-	defer cancel()
+	linkResults := d.EnumLinksAsync(enumCtx)
+	defer func() {
+		cancel()
+		for range linkResults {
+		}
+	}()
 
-	for linkResult := range d.EnumLinksAsync(enumCtx) {
+	for linkResult := range linkResults {
 		if linkResult.Err != nil {
 			return false, linkResult.Err
 		}
-- 
2.43.0


From 4f6115d342a5d7356c81fc4a1d055e037294cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 06/23] fix: switch back to a basic directory when the entry
 that caused sharding is removed

---
 io/directory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/directory.go b/io/directory.go
index 3d9f14e..3cb8706 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -605,6 +605,9 @@ func (d *DynamicDirectory) AddChild(ctx context.Context, name string, nd ipld.No
 	if err != nil {
 		return err
 	}
+	// Track size changes from this point (where we are at or above the
+	// threshold), the entry just added is what made us switch.
+	hamtDir.sizeChange = 0
 	d.Directory = hamtDir
 	return nil
 }
-- 
2.43.0


From e7c9ade9e68cb9b2c5e5780b43cd42e4f9c1197f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 07/23] fix: reset the DagReader position when a seek fails

---
 io/dagreader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/io/dagreader.go b/io/dagreader.go
index 7284bdc..d284f50 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -462,6 +462,8 @@ func (dr *dagReader) Seek(offset int64, whence int) (int64, error) {
 		})
 
 		if err != nil {
+			// The search may have stopped anywhere, go back to a known position.
+			dr.resetPosition()
 			return 0, err
 		}
 
-- 
2.43.0


From de064d37587539884e25026567132df4e90c3816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 08/23] fix: account for the data written by DagReader.WriteTo
 when the writer fails

---
 io/dagreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/dagreader.go b/io/dagreader.go
index d284f50..a6bd8b8 100644
--- a/io/dagreader.go
+++ b/io/dagreader.go
@@ -265,6 +265,7 @@ func (dr *dagReader) readNodeDataBuffer(out []byte) int {
 func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 
 	n, err := dr.currentNodeData.WriteTo(w)
+	dr.offset += n
 	if err != nil {
 		return n, err
 	}
@@ -276,7 +277,6 @@ func (dr *dagReader) writeNodeDataBuffer(w io.Writer) (int64, error) {
 		// single node's data, not the entire DAG.
 	}
 
-	dr.offset += int64(n)
 	return n, nil
 }
 
-- 
2.43.0


From ca2340696fd7cdc5645f7276dc6a1539c1f3140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 09/23] fix: use a separate directory walk for every UnixFS
 directory iterator

---
 file/unixfile.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/file/unixfile.go b/file/unixfile.go
index 00f8e25..c72cbd7 100644
--- a/file/unixfile.go
+++ b/file/unixfile.go
@@ -19,7 +19,7 @@ const prefetchFiles = 4
 type ufsDirectory struct {
 	ctx   context.Context
 	dserv ipld.DAGService
-	dir   uio.Directory
+	nd    *dag.ProtoNode
 	size  int64
 }
 
@@ -94,7 +94,18 @@ func (d *ufsDirectory) Entries() files.DirIterator {
 	fileCh := make(chan *ipld.Link, prefetchFiles)
 	errCh := make(chan error, 1)
 	go func() {
-		errCh <- d.dir.ForEachLink(d.ctx, func(link *ipld.Link) error {
+		defer close(fileCh)
+		defer close(errCh)
+
+		// Every iterator walks its own Directory: they run concurrently and
+		// walking a sharded one modifies it (loading its shards).
+		dir, err := uio.NewDirectoryFromNode(d.dserv, d.nd)
+		if err != nil {
+			errCh <- err
+			return
+		}
+
+		errCh <- dir.ForEachLink(d.ctx, func(link *ipld.Link) error {
 			if d.ctx.Err() != nil {
 				return d.ctx.Err()
 			}
@@ -105,9 +116,6 @@ func (d *ufsDirectory) Entries() files.DirIterator {
 			}
 			return nil
 		})
-
-		close(errCh)
-		close(fileCh)
 	}()
 
 	return &ufsIterator{
@@ -131,8 +139,8 @@ func (f *ufsFile) Size() (int64, error) {
 }
 
 func newUnixfsDir(ctx context.Context, dserv ipld.DAGService, nd *dag.ProtoNode) (files.Directory, error) {
-	dir, err := uio.NewDirectoryFromNode(dserv, nd)
-	if err != nil {
+	// Check that this is a directory we can read, see `Entries`.
+	if _, err := uio.NewDirectoryFromNode(dserv, nd); err != nil {
 		return nil, err
 	}
 
@@ -145,7 +153,7 @@ func newUnixfsDir(ctx context.Context, dserv ipld.DAGService, nd *dag.ProtoNode)
 		ctx:   ctx,
 		dserv: dserv,
 
-		dir:  dir,
+		nd:   nd.Copy().(*dag.ProtoNode),
 		size: int64(size),
 	}, nil
 }
-- 
2.43.0


From 74206f207163b510bb72da7eac2c09cff1497d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:27 +0000
Subject: [PATCH 10/23] fix: keep the trickle layout when appending to a DAG

---
 importer/trickle/trickledag.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index c2e6d03..a4deb0f 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -123,12 +123,12 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 	}
 
 	// Last child in this node may not be a full tree, lets fill it up.
-	if err := appendFillLastChild(ctx, fsn, depth-1, repeatNumber, db); err != nil {
+	if err := appendFillLastChild(ctx, fsn, depth, repeatNumber, db); err != nil {
 		return nil, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// after appendFillLastChild, a partially filled depth layer is complete
+	if repeatNumber != 0 {
 		depth++
 	}
 
@@ -153,6 +153,8 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 	return fsn.GetDagNode()
 }
 
+// appendFillLastChild fills the last sub-graph of a node and completes the layer it
+// belongs to, `depth` and `repeatNumber` are the ones returned by `trickleDepthInfo`.
 func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, repeatNumber int, db *h.DagBuilderHelper) error {
 	if fsn.NumChildren() <= db.Maxlinks() {
 		return nil
@@ -167,8 +169,15 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 		return err
 	}
 
+	// The last child is part of the layer of the given depth, unless that one
+	// is yet to be started.
+	lastDepth := depth
+	if repeatNumber == 0 {
+		lastDepth--
+	}
+
 	// Fill out last child (may not be full tree)
-	newChild, nchildSize, err := appendRec(ctx, lastChild, db, depth-1)
+	newChild, nchildSize, err := appendRec(ctx, lastChild, db, lastDepth)
 	if err != nil {
 		return err
 	}
@@ -219,17 +228,12 @@ func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper
 	}
 	// TODO: Same as `appendFillLastChild`, when is this case possible?
 
-	// If at correct depth, no need to continue
-	if depth == maxDepth {
-		return fsn, fsn.FileSize(), nil
-	}
-
 	if err := appendFillLastChild(ctx, fsn, depth, repeatNumber, db); err != nil {
 		return nil, 0, err
 	}
 
-	// after appendFillLastChild, our depth is now increased by one
-	if !db.Done() {
+	// after appendFillLastChild, a partially filled depth layer is complete
+	if repeatNumber != 0 {
 		depth++
 	}
 
-- 
2.43.0


From e325a6582db8ecb72d8088b9af8215c177d18efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:13 +0000
Subject: [PATCH 11/23] fix: keep the existing data when appending to a DAG
 leaf

---
 importer/trickle/trickledag.go | 62 +++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/importer/trickle/trickledag.go b/importer/trickle/trickledag.go
index a4deb0f..ea049ad 100644
--- a/importer/trickle/trickledag.go
+++ b/importer/trickle/trickledag.go
@@ -92,14 +92,7 @@ func fillTrickleRec(db *h.DagBuilderHelper, node *h.FSNodeOverDag, maxDepth int)
 //
 // Deprecated: use github.com/ipfs/boxo/ipld/unixfs/importer/trickle.Append
 func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out ipld.Node, errOut error) {
-	base, ok := basen.(*dag.ProtoNode)
-	if !ok {
-		return nil, dag.ErrNotProtobuf
-	}
-
-	// Convert to unixfs node for working with easily
-
-	fsn, err := h.NewFSNFromDag(base)
+	fsn, err := appendBase(basen, db)
 	if err != nil {
 		return nil, err
 	}
@@ -153,6 +146,37 @@ func Append(ctx context.Context, basen ipld.Node, db *h.DagBuilderHelper) (out i
 	return fsn.GetDagNode()
 }
 
+// appendBase converts the base of an `Append` to a unixfs node for working with
+// easily. A base which is itself a data leaf can't have children, it is added
+// as the first one of a new root instead.
+func appendBase(basen ipld.Node, db *h.DagBuilderHelper) (*h.FSNodeOverDag, error) {
+	var leafSize uint64
+
+	switch base := basen.(type) {
+	case *dag.ProtoNode:
+		fsn, err := ft.FSNodeFromBytes(base.Data())
+		if err != nil {
+			return nil, err
+		}
+		if len(base.Links()) > 0 || len(fsn.Data()) == 0 {
+			return h.NewFSNFromDag(base)
+		}
+		leafSize = fsn.FileSize()
+	case *dag.RawNode:
+		leafSize = uint64(len(base.RawData()))
+	default:
+		return nil, dag.ErrNotProtobuf
+	}
+
+	root := db.NewFSNodeOverDag(ft.TFile)
+	if leafSize > 0 {
+		if err := root.AddChild(basen, leafSize, db); err != nil {
+			return nil, err
+		}
+	}
+	return root, nil
+}
+
 // appendFillLastChild fills the last sub-graph of a node and completes the layer it
 // belongs to, `depth` and `repeatNumber` are the ones returned by `trickleDepthInfo`.
 func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, repeatNumber int, db *h.DagBuilderHelper) error {
@@ -164,6 +188,15 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 
 	// Recursive step, grab last child
 	last := fsn.NumChildren() - 1
+	leaf, err := isLeaf(ctx, fsn, last, db.GetDagServ())
+	if err != nil {
+		return err
+	}
+	if leaf {
+		// Not a sub-graph (the DAG was built with other parameters), there
+		// is nothing to fill.
+		return nil
+	}
 	lastChild, err := fsn.GetChild(ctx, last, db.GetDagServ())
 	if err != nil {
 		return err
@@ -211,6 +244,19 @@ func appendFillLastChild(ctx context.Context, fsn *h.FSNodeOverDag, depth int, r
 	return nil
 }
 
+// isLeaf checks whether the ith child of a node is a data leaf.
+func isLeaf(ctx context.Context, fsn *h.FSNodeOverDag, i int, ds ipld.NodeGetter) (bool, error) {
+	nd, err := fsn.GetDagNode()
+	if err != nil {
+		return false, err
+	}
+	child, err := nd.Links()[i].GetNode(ctx, ds)
+	if err != nil {
+		return false, err
+	}
+	return len(child.Links()) == 0, nil
+}
+
 // recursive call for Append
 func appendRec(ctx context.Context, fsn *h.FSNodeOverDag, db *h.DagBuilderHelper, maxDepth int) (*h.FSNodeOverDag, uint64, error) {
 	if maxDepth == 0 || db.Done() {
-- 
2.43.0


From bfe14d150210bda3124acae1d8ab7557abd3267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:16 +0000
Subject: [PATCH 12/23] fix: do not modify the original node when writing with
 DagModifier

---
 mod/dagmodifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 6cc484a..4f235a9 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -335,7 +335,11 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
-			node.Links()[i].Cid = k
+			// Links are shared with the copies of this node (like the ones
+			// returned by `GetNode`), replace it instead of modifying it.
+			newLink := *node.Links()[i]
+			newLink.Cid = k
+			node.Links()[i] = &newLink
 
 			// Recache serialized node
 			_, err = node.EncodeProtobuf(true)
-- 
2.43.0


From 5b7732cad2ca3dd05824025cf7a714f300137e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:18 +0000
Subject: [PATCH 13/23] fix: use the expanded node after DagModifier grows a
 file

---
 mod/dagmodifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 4f235a9..5abc1ad 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -138,7 +138,11 @@ func (dm *DagModifier) expandSparse(size int64) error {
 		return err
 	}
 	err = dm.dagserv.Add(dm.ctx, nnode)
-	return err
+	if err != nil {
+		return err
+	}
+	dm.curNode = nnode
+	return nil
 }
 
 // Write continues writing to the dag at the current offset
-- 
2.43.0


From 98b84613497342d71482740500d6441ffb89c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 14/23] fix: discard the active reader when DagModifier changes
 the size of the file

---
 mod/dagmodifier.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 5abc1ad..b654277 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -141,15 +141,23 @@ func (dm *DagModifier) expandSparse(size int64) error {
 	if err != nil {
 		return err
 	}
+	dm.discardReader()
 	dm.curNode = nnode
 	return nil
 }
 
-// Write continues writing to the dag at the current offset
-func (dm *DagModifier) Write(b []byte) (int, error) {
+// discardReader kills the active reader (if any), which would otherwise keep
+// reading the DAG as it was before a change.
+func (dm *DagModifier) discardReader() {
 	if dm.read != nil {
 		dm.read = nil
+		dm.readCancel()
 	}
+}
+
+// Write continues writing to the dag at the current offset
+func (dm *DagModifier) Write(b []byte) (int, error) {
+	dm.discardReader()
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
 	}
@@ -202,11 +210,7 @@ func (dm *DagModifier) Sync() error {
 		return nil
 	}
 
-	// If we have an active reader, kill it
-	if dm.read != nil {
-		dm.read = nil
-		dm.readCancel()
-	}
+	dm.discardReader()
 
 	// Number of bytes we're going to write
 	buflen := dm.wrBuf.Len()
@@ -488,7 +492,7 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	dm.writeStart = newoffset
 
 	if dm.read != nil {
-		_, err = dm.read.Seek(offset, whence)
+		_, err = dm.read.Seek(int64(newoffset), io.SeekStart)
 		if err != nil {
 			return 0, err
 		}
@@ -518,6 +522,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 		return dm.expandSparse(int64(size) - realSize)
 	}
 
+	dm.discardReader()
 	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))
 	if err != nil {
 		return err
-- 
2.43.0


From f55660e590df7a08c06ac9ed7bcc4f6c9ef29adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:23 +0000
Subject: [PATCH 15/23] fix: seek from the end in the right direction in
 DagModifier

---
 mod/dagmodifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index b654277..3f62f83 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -478,7 +478,7 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	case io.SeekStart:
 		newoffset = uint64(offset)
 	case io.SeekEnd:
-		newoffset = uint64(fisize) - uint64(offset)
+		newoffset = uint64(fisize + offset)
 	default:
 		return 0, ErrUnrecognizedWhence
 	}
-- 
2.43.0


From cc4fb62b42be61a71d8f6be63d28605301c67b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 16/23] fix: keep track of the write offset in
 DagModifier.WriteAt

---
 mod/dagmodifier.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 3f62f83..fb01861 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -91,11 +91,10 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
-	if offset == int64(dm.writeStart) && dm.wrBuf != nil {
-		// If we would overwrite the previous write
-		if len(b) >= dm.wrBuf.Len() {
-			dm.wrBuf.Reset()
-		}
+	if offset == int64(dm.writeStart) && dm.wrBuf != nil && len(b) >= dm.wrBuf.Len() {
+		// We would overwrite the previous write
+		dm.wrBuf.Reset()
+		dm.curWrOff = dm.writeStart
 	} else if uint64(offset) != dm.curWrOff {
 		size, err := dm.Size()
 		if err != nil {
@@ -113,6 +112,7 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 			return 0, err
 		}
 		dm.writeStart = uint64(offset)
+		dm.curWrOff = uint64(offset)
 	}
 
 	return dm.Write(b)
-- 
2.43.0


From b6b7add11772af9aa81323648961cff01df56192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:46 +0000
Subject: [PATCH 17/23] fix: write at the current offset after reading with
 DagModifier

---
 mod/dagmodifier.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index fb01861..7500c5e 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -160,6 +160,7 @@ func (dm *DagModifier) Write(b []byte) (int, error) {
 	dm.discardReader()
 	if dm.wrBuf == nil {
 		dm.wrBuf = new(bytes.Buffer)
+		dm.writeStart = dm.curWrOff
 	}
 
 	n, err := dm.wrBuf.Write(b)
-- 
2.43.0


From 7bcd5daa9d65ce07699cffb3f96d737e814f0c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 18/23] fix: reject negative offsets in DagModifier

---
 mod/dagmodifier.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 7500c5e..00b8dbb 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -25,6 +25,7 @@ var (
 	ErrSeekFail = errors.New("failed to seek properly")
 	// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/mod.ErrUnrecognizedWhence
 	ErrUnrecognizedWhence = errors.New("unrecognized whence")
+	errNegativeOffset     = errors.New("negative offset")
 	// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/mod.ErrNotUnixfs
 	ErrNotUnixfs = errors.New("dagmodifier only supports unixfs nodes (proto or raw)")
 )
@@ -88,6 +89,9 @@ func NewDagModifier(ctx context.Context, from ipld.Node, serv ipld.DAGService, s
 
 // WriteAt will modify a dag file in place
 func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
+	if offset < 0 {
+		return 0, errNegativeOffset
+	}
 	// TODO: this is currently VERY inefficient
 	// each write that happens at an offset other than the current one causes a
 	// flush to disk, and dag rewrite
@@ -484,6 +488,9 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 		return 0, ErrUnrecognizedWhence
 	}
 
+	if int64(newoffset) < 0 {
+		return 0, errNegativeOffset
+	}
 	if int64(newoffset) > fisize {
 		if err := dm.expandSparse(int64(newoffset) - fisize); err != nil {
 			return 0, err
@@ -505,6 +512,9 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 // Truncate truncates the current Node to 'size' and replaces it with the
 // new one.
 func (dm *DagModifier) Truncate(size int64) error {
+	if size < 0 {
+		return errNegativeOffset
+	}
 	err := dm.Sync()
 	if err != nil {
 		return err
-- 
2.43.0


From aa07e3c89a63ca37fcd3f8211b46541a06af9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:06 +0000
Subject: [PATCH 19/23] fix: keep the pending data and the current node when a
 DagModifier operation fails

---
 mod/dagmodifier.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 00b8dbb..f03270a 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -100,6 +100,11 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 		dm.wrBuf.Reset()
 		dm.curWrOff = dm.writeStart
 	} else if uint64(offset) != dm.curWrOff {
+		err := dm.Sync()
+		if err != nil {
+			return 0, err
+		}
+
 		size, err := dm.Size()
 		if err != nil {
 			return 0, err
@@ -110,11 +115,6 @@ func (dm *DagModifier) WriteAt(b []byte, offset int64) (int, error) {
 				return 0, err
 			}
 		}
-
-		err = dm.Sync()
-		if err != nil {
-			return 0, err
-		}
 		dm.writeStart = uint64(offset)
 		dm.curWrOff = uint64(offset)
 	}
@@ -137,7 +137,7 @@ func (zr zeroReader) Read(b []byte) (int, error) {
 func (dm *DagModifier) expandSparse(size int64) error {
 	r := io.LimitReader(zeroReader{}, size)
 	spl := chunker.NewSizeSplitter(r, 4096)
-	nnode, err := dm.appendData(dm.curNode, spl)
+	nnode, err := dm.appendData(dm.curNode.Copy(), spl)
 	if err != nil {
 		return err
 	}
@@ -209,7 +209,7 @@ func fileSize(n ipld.Node) (uint64, error) {
 }
 
 // Sync writes changes to this dag to disk
-func (dm *DagModifier) Sync() error {
+func (dm *DagModifier) Sync() (err error) {
 	// No buffer? Nothing to do
 	if dm.wrBuf == nil {
 		return nil
@@ -217,6 +217,17 @@ func (dm *DagModifier) Sync() error {
 
 	dm.discardReader()
 
+	// In case of an error keep the current node and the unwritten data, so
+	// nothing is lost if this is called again.
+	origNode, data := dm.curNode, dm.wrBuf.Bytes()
+	dm.curNode = origNode.Copy()
+	defer func() {
+		if err != nil {
+			dm.curNode = origNode
+			dm.wrBuf = bytes.NewBuffer(data)
+		}
+	}()
+
 	// Number of bytes we're going to write
 	buflen := dm.wrBuf.Len()
 
@@ -502,6 +513,7 @@ func (dm *DagModifier) Seek(offset int64, whence int) (int64, error) {
 	if dm.read != nil {
 		_, err = dm.read.Seek(int64(newoffset), io.SeekStart)
 		if err != nil {
+			dm.discardReader()
 			return 0, err
 		}
 	}
@@ -534,7 +546,7 @@ func (dm *DagModifier) Truncate(size int64) error {
 	}
 
 	dm.discardReader()
-	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode, uint64(size))
+	nnode, err := dm.dagTruncate(dm.ctx, dm.curNode.Copy(), uint64(size))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e22d18b6d4bd98a6391ba90466ed180e810c417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:13 +0000
Subject: [PATCH 20/23] fix: reject nodes with differing numbers of block sizes
 and links in NewFSNFromDag

Appending to such a (malformed) node would panic.
---
 importer/helpers/dagbuilder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/importer/helpers/dagbuilder.go b/importer/helpers/dagbuilder.go
index f858c74..174b601 100644
--- a/importer/helpers/dagbuilder.go
+++ b/importer/helpers/dagbuilder.go
@@ -323,6 +323,11 @@ func NewFSNFromDag(nd *dag.ProtoNode) (*FSNodeOverDag, error) {
 		return nil, err
 	}
 
+	// Both layers are accessed with the same child indexes.
+	if mb.NumChildren() != len(nd.Links()) {
+		return nil, errors.New("the number of block sizes and links of the node differ")
+	}
+
 	return &FSNodeOverDag{
 		dag:  nd,
 		file: mb,
-- 
2.43.0


From 1699db7a6a7e60f9d65ebc959a2d91386865313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:13 +0000
Subject: [PATCH 21/23] fix: fail instead of panicking when a DagModifier edits
 a malformed file

Block and file sizes that don't match the data led to accesses out of range,
and file sizes beyond 2^63 to filling up the store with zeros.
---
 mod/dagmodifier.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index f03270a..1f827ee 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 
 	ft "github.com/ipfs/go-unixfs"
 	help "github.com/ipfs/go-unixfs/importer/helpers"
@@ -26,6 +27,7 @@ var (
 	// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/mod.ErrUnrecognizedWhence
 	ErrUnrecognizedWhence = errors.New("unrecognized whence")
 	errNegativeOffset     = errors.New("negative offset")
+	errMalformed          = errors.New("malformed file node")
 	// Deprecated: use github.com/ipfs/boxo/ipld/unixfs/mod.ErrNotUnixfs
 	ErrNotUnixfs = errors.New("dagmodifier only supports unixfs nodes (proto or raw)")
 )
@@ -200,6 +202,9 @@ func fileSize(n ipld.Node) (uint64, error) {
 		if err != nil {
 			return 0, err
 		}
+		if fsn.FileSize() > math.MaxInt64 {
+			return 0, errMalformed
+		}
 		return fsn.FileSize(), nil
 	case *mdag.RawNode:
 		return uint64(len(nd.RawData())), nil
@@ -283,6 +288,10 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 				return cid.Cid{}, err
 			}
 
+			if offset > uint64(len(fsn.Data())) {
+				return cid.Cid{}, errMalformed
+			}
+
 			_, err = dm.wrBuf.Read(fsn.Data()[offset:])
 			if err != nil && err != io.EOF {
 				return cid.Cid{}, err
@@ -305,6 +314,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 			return nd.Cid(), nil
 		case *mdag.RawNode:
 			origData := nd0.RawData()
+			if offset > uint64(len(origData)) {
+				return cid.Cid{}, errMalformed
+			}
 			bytes := make([]byte, len(origData))
 
 			// copy orig data up to offset
@@ -344,6 +356,9 @@ func (dm *DagModifier) modifyDag(n ipld.Node, offset uint64) (cid.Cid, error) {
 	if err != nil {
 		return cid.Cid{}, err
 	}
+	if fsn.NumChildren() != len(node.Links()) {
+		return cid.Cid{}, errMalformed
+	}
 
 	var cur uint64
 	for i, bs := range fsn.BlockSizes() {
@@ -570,9 +585,15 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 			if err != nil {
 				return nil, err
 			}
+			if size > uint64(len(fsn.Data())) {
+				return nil, errMalformed
+			}
 			nd.SetData(ft.WrapData(fsn.Data()[:size]))
 			return nd, nil
 		case *mdag.RawNode:
+			if size > uint64(len(nd.RawData())) {
+				return nil, errMalformed
+			}
 			return mdag.NewRawNodeWPrefix(nd.RawData()[:size], nd.Cid().Prefix())
 		}
 	}
@@ -619,6 +640,10 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 		cur += childsize
 		ndata.AddBlockSize(childsize)
 	}
+	if modified == nil {
+		// The children are smaller than the size of this node claims.
+		return nil, errMalformed
+	}
 
 	err = dm.dagserv.Add(ctx, modified)
 	if err != nil {
-- 
2.43.0


From 784cb97e9592b9354acdb72fd83e13dcdede1260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:55 +0000
Subject: [PATCH 22/23] fix: account for the size of a replaced or removed
 entry by its name alone

Links loaded from a stored shard carry the prefix of their slot in their
name, so every replacement or removal of such an entry counted the prefix
too and a sharded directory was enumerated as if it had become smaller.
---
 io/directory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/directory.go b/io/directory.go
index 3cb8706..d43c595 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -373,7 +373,7 @@ func (d *HAMTDirectory) AddChild(ctx context.Context, name string, nd ipld.Node)
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 	d.addToSizeChange(name, nd.Cid())
 	return nil
@@ -413,7 +413,7 @@ func (d *HAMTDirectory) RemoveChild(ctx context.Context, name string) error {
 	}
 
 	if oldChild != nil {
-		d.removeFromSizeChange(oldChild.Name, oldChild.Cid)
+		d.removeFromSizeChange(name, oldChild.Cid)
 	}
 
 	return nil
-- 
2.43.0


From 65442b29f4344f0052d16f1a43cd6d83d827fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:02 +0000
Subject: [PATCH 23/23] fix: fail instead of panicking when a node is too large
 to be linked to

---
 hamt/hamt.go                   |  4 ++--
 importer/helpers/dagbuilder.go |  8 +++++++-
 internal/link.go               | 25 +++++++++++++++++++++++++
 io/directory.go                |  3 ++-
 mod/dagmodifier.go             |  8 +++++++-
 5 files changed, 43 insertions(+), 5 deletions(-)
 create mode 100644 internal/link.go

diff --git a/hamt/hamt.go b/hamt/hamt.go
index 82b5733..ab16504 100644
--- a/hamt/hamt.go
+++ b/hamt/hamt.go
@@ -292,7 +292,7 @@ func (ds *Shard) Swap(ctx context.Context, name string, node ipld.Node) (*ipld.L
 		return nil, err
 	}
 
-	lnk, err := ipld.MakeLink(node)
+	lnk, err := internal.MakeLink(node)
 	if err != nil {
 		return nil, err
 	}
@@ -368,7 +368,7 @@ func (ds *Shard) Link() (*ipld.Link, error) {
 		return nil, err
 	}
 
-	return ipld.MakeLink(nd)
+	return internal.MakeLink(nd)
 }
 
 func (ds *Shard) getValue(ctx context.Context, hv *hashBits, key string, cb func(*Shard) error) error {
diff --git a/importer/helpers/dagbuilder.go b/importer/helpers/dagbuilder.go
index 174b601..dcec7eb 100644
--- a/importer/helpers/dagbuilder.go
+++ b/importer/helpers/dagbuilder.go
@@ -9,6 +9,7 @@ import (
 	dag "github.com/ipfs/go-merkledag"
 
 	ft "github.com/ipfs/go-unixfs"
+	"github.com/ipfs/go-unixfs/internal"
 	pb "github.com/ipfs/go-unixfs/pb"
 
 	cid "github.com/ipfs/go-cid"
@@ -340,7 +341,12 @@ func NewFSNFromDag(nd *dag.ProtoNode) (*FSNodeOverDag, error) {
 // node but the size of the file data that it is storing at the
 // UnixFS layer). The child is also stored in the `DAGService`.
 func (n *FSNodeOverDag) AddChild(child ipld.Node, fileSize uint64, db *DagBuilderHelper) error {
-	err := n.dag.AddNodeLink("", child)
+	lnk, err := internal.MakeLink(child)
+	if err != nil {
+		return err
+	}
+
+	err = n.dag.AddRawLink("", lnk)
 	if err != nil {
 		return err
 	}
diff --git a/internal/link.go b/internal/link.go
new file mode 100644
index 0000000..2178548
--- /dev/null
+++ b/internal/link.go
@@ -0,0 +1,25 @@
+package internal
+
+import (
+	"errors"
+	"math"
+
+	ipld "github.com/ipfs/go-ipld-format"
+)
+
+// errTooLarge is returned when a node is too large to be linked to.
+var errTooLarge = errors.New("the cumulative size of the node is too large for a link")
+
+// MakeLink creates a link to the given node. It fails if the (claimed)
+// cumulative size of the node doesn't fit in a link: encoding a node with
+// such a link would panic.
+func MakeLink(n ipld.Node) (*ipld.Link, error) {
+	lnk, err := ipld.MakeLink(n)
+	if err != nil {
+		return nil, err
+	}
+	if lnk.Size > math.MaxInt64 {
+		return nil, errTooLarge
+	}
+	return lnk, nil
+}
diff --git a/io/directory.go b/io/directory.go
index d43c595..5217e76 100644
--- a/io/directory.go
+++ b/io/directory.go
@@ -6,6 +6,7 @@ import (
 	"os"
 
 	"github.com/ipfs/go-unixfs/hamt"
+	"github.com/ipfs/go-unixfs/internal"
 	"github.com/ipfs/go-unixfs/private/linksize"
 
 	"github.com/alecthomas/units"
@@ -211,7 +212,7 @@ func (d *BasicDirectory) SetCidBuilder(builder cid.Builder) {
 // AddChild implements the `Directory` interface. It adds (or replaces)
 // a link to the given `node` under `name`.
 func (d *BasicDirectory) AddChild(ctx context.Context, name string, node ipld.Node) error {
-	link, err := ipld.MakeLink(node)
+	link, err := internal.MakeLink(node)
 	if err != nil {
 		return err
 	}
diff --git a/mod/dagmodifier.go b/mod/dagmodifier.go
index 1f827ee..4019dbd 100644
--- a/mod/dagmodifier.go
+++ b/mod/dagmodifier.go
@@ -12,6 +12,7 @@ import (
 	ft "github.com/ipfs/go-unixfs"
 	help "github.com/ipfs/go-unixfs/importer/helpers"
 	trickle "github.com/ipfs/go-unixfs/importer/trickle"
+	"github.com/ipfs/go-unixfs/internal"
 	uio "github.com/ipfs/go-unixfs/io"
 
 	cid "github.com/ipfs/go-cid"
@@ -651,7 +652,12 @@ func (dm *DagModifier) dagTruncate(ctx context.Context, n ipld.Node, size uint64
 	}
 
 	nd.SetLinks(nd.Links()[:end])
-	err = nd.AddNodeLink("", modified)
+	lnk, err := internal.MakeLink(modified)
+	if err != nil {
+		return nil, err
+	}
+
+	err = nd.AddRawLink("", lnk)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

