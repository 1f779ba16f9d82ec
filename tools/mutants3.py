D='policy/daemon.go'; F='policy/fetcher.go'; A='authorizerd.go'; T='translator.go'; AP='access/processor.go'; J='jwk/daemon.go'; P='pubkey/daemon.go'; RT='role/token.go'; RP='role/processor.go'; C='client/exp_rt.go'
MUTANTS={
'e38unbuf':('C38',(D,'ech := make(chan roleEffect, len(roles))','ech := make(chan roleEffect)')),
'e38unbuf1':('C38',(D,'ech := make(chan roleEffect, len(roles))','ech := make(chan roleEffect, 1)')),
'e38polctx':('C38',(F,'f.client.Do(req.WithContext(ctx))','f.client.Do(req)')),
'e38pubctx':('C38',(P,'p.client.Do(req.WithContext(ctx))','p.client.Do(req)')),
'e38jwkctx':('C38',(J,'jwk.Fetch(ctx, target','jwk.Fetch(context.Background(), target')),
'e38stop':('C38',(D,'	(*oldRpPtr).Stop()\n','')),
'e38purge':('C38',(D,'StartExpired(ctx, p.purgePeriod)','StartExpired(context.Background(), p.purgePeriod)')),
'e38etag':('C38',(P,'p.eTagCache.StartExpired(ctx, p.eTagPurgePeriod)','p.eTagCache.StartExpired(context.Background(), p.eTagPurgePeriod)')),
'e38wg':('C38',(D,'					asss, ok := rp.Get(dr)\n					if !ok {\n						return\n','					asss, ok := rp.Get(dr)\n					if !ok {\n						ch <- roleEffect{Role: role, Effect: errors.Wrap(ErrNoMatch, dr)}\n						ch <- roleEffect{Role: role, Effect: errors.Wrap(ErrNoMatch, dr)}\n						return\n')),
'e38init':('C38',(A,'return a.jwkd.Update(egCtx)','return a.jwkd.Update(context.Background())')),
'e38cachegc':('C38',(A,'				g.Stop()\n',''),(A,'g.StartExpired(ctx, period)','g.StartExpired(context.Background(), period)')),
'e08stale':('C08',(F,'	var lastErr error\n	for','	var lastErr error\n	old := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))\n	for'),(F,'	return tp.sp, errors','	if old != nil {\n		tp = old\n	}\n	return tp.sp, errors')),
'e25act':('C25',(A,'	if !a.disablePolicyd {\n		if act == ""','	if !a.disablePolicyd {\n		if a.translator != nil {\n			act = strings.ToLower(act)\n		}\n		if act == ""')),
}
