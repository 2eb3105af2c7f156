A='A26'
L='tools/crashlist.c'
C='cmnllib/cmnllib.c'
N='crashmail/nl_cmnl.c'
G='tools/crashgetnode.c'
CASES=[
(A,1,'nl-zone-net',L,"			idx.net=idx.zone;\n",""),
(A,1,'nl-zone-hub',L,"			idx.net=idx.zone;\n			idx.hub=0;\n","			idx.net=idx.zone;\n"),
(A,1,'nl-host-hub',L,"			idx.net=atoi(&buf[5]);\n			idx.hub=0;\n","			idx.net=atoi(&buf[5]);\n"),
(A,1,'nl-host-node',L,"			idx.net=atoi(&buf[5]);\n			idx.hub=0;\n			idx.node=0;\n","			idx.net=atoi(&buf[5]);\n			idx.hub=0;\n"),
(A,1,'nl-region',L,"			idx.region=atoi(&buf[7]);\n			idx.net=idx.region;","			idx.region=atoi(&buf[7]);"),
(A,1,'nl-host-region',L,"			idx.net=atoi(&buf[5]);\n			idx.hub=0;","			idx.net=atoi(&buf[5]);\n			idx.region=0;\n			idx.hub=0;"),
(A,1,'nl-pvt-point',L,"		if(strnicmp(buf,\"Pvt,\",4)==0)\n		{\n			idx.node=atoi(&buf[4]);\n			idx.point=0;","		if(strnicmp(buf,\"Pvt,\",4)==0)\n		{\n			idx.node=atoi(&buf[4]);"),
(A,1,'nl-hold-off',L,"		if(strnicmp(buf,\"Hold,\",5)==0)\n		{\n			idx.node=atoi(&buf[5]);","		if(strnicmp(buf,\"Hold,\",5)==0)\n		{\n			idx.node=atoi(&buf[4]);"),
(A,1,'nl-nohold',L,"		if(strnicmp(buf,\"Hold,\",5)==0)\n		{\n			idx.node=atoi(&buf[5]);\n			idx.point=0;\n			WriteIdx(ifh,&idx);\n		}\n",""),
(A,1,'nl-twice',L,"			idx.point=atoi(&buf[6]);\n			WriteIdx(ifh,&idx);","			idx.point=atoi(&buf[6]);\n			WriteIdx(ifh,&idx);\n			if(idx.point==1) WriteIdx(ifh,&idx);"),
(A,1,'nl-skip',L,"			idx.point=atoi(&buf[6]);\n			WriteIdx(ifh,&idx);","			idx.point=atoi(&buf[6]);\n			if(idx.point < 256) WriteIdx(ifh,&idx);"),
(A,1,'nl-offset',L,"		idx.offset=osFTell(nfh);	\n	}","		if(buf[0]!=';') idx.offset=osFTell(nfh);	\n	}"),
(A,1,'nl-offset0',L,"	idx.offset=osFTell(nfh);	\n\n   while","   while"),
(A,1,'nl-mark',L,"	idx.offset=0xffffffff;\n","	idx.offset=0xffff;\n"),
(A,1,'nl-nomark',L,"	idx.offset=0xffffffff;\n\n	WriteIdx(ifh,&idx);","	idx.offset=0xffffffff;\n\n	if(buf[0]) WriteIdx(ifh,&idx);"),
(A,1,'nl-layout',L,"	putuword(binbuf,8,idx->region);\n	putuword(binbuf,10,idx->hub);","	putuword(binbuf,10,idx->region);\n	putuword(binbuf,8,idx->hub);"),
(A,1,'nl-word',L,"putuword(binbuf,2,idx->net);","putuword(binbuf,2,idx->node);"),
(A,1,'nl-newest',L,"newest < fe->Date","newest > fe->Date"),
(A,1,'nl-newest2',L,"					newest=fe->Date;\n",""),
(A,1,'nl-name',L,"osWrite(ifh,buf,100);","osWrite(ifh,buf,80);"),
(A,1,'f-point',C,"			if(cmnlidx->point != idx.point) found=FALSE;\n",""),
(A,1,'f-point0',C,"if(cmnlidx->point != idx.point) found=FALSE;","if(cmnlidx->point && cmnlidx->point != idx.point) found=FALSE;"),
(A,1,'f-zone0',C,"if(cmnlidx->zone  != idx.zone)  found=FALSE;","if(idx.zone && cmnlidx->zone  != idx.zone)  found=FALSE;"),
(A,1,'f-else',C,"			if(cmnlidx->net   != idx.net)   found=FALSE;\n			if(cmnlidx->node  != idx.node)  found=FALSE;","			if(cmnlidx->net   != idx.net)   found=FALSE;\n			else if(cmnlidx->node  != idx.node)  found=FALSE;\n			else found=TRUE;"),
(A,1,'f-first',C,"	while(!found)\n	{\n		if(osRead(nl,nlname","	{\n		if(osRead(nl,nlname",C,"			if(idx.offset == 0xffffffff) found=FALSE;\n		}\n	}","			if(idx.offset == 0xffffffff) found=FALSE;\n		}\n	}\n\n	if(!found) return(FALSE);"),
(A,1,'f-seek',C,"	osSeek(nl,4,OFFSET_BEGINNING);\n",""),
(A,1,'f-hub',C,"	cmnlidx->hub=idx.hub;\n","	if(idx.hub) cmnlidx->hub=idx.hub;\n"),
(A,1,'f-region',C,"cmnlidx->region=idx.region;","cmnlidx->region=idx.hub;"),
(A,1,'f-offset',C,"	osSeek(fh,idx.offset,OFFSET_BEGINNING);\n",""),
(A,1,'f-end',C,"while(!found && idx.offset != 0xffffffff)","while(!found)"),
(A,1,'f-get',C,"idx.net=cmnlgetuword(binbuf,2);","idx.net=cmnlgetuword(binbuf,4);"),
(A,1,'f-early',C,"			if(idx.offset == 0xffffffff) found=FALSE;\n","			if(idx.offset == 0xffffffff) found=FALSE;\n			if(!found && idx.zone > cmnlidx->zone) return(FALSE);\n"),
(A,1,'a-point',N,"long cmnl_nlGetHub(struct Node4D *node)\n{\n	struct cmnlIdx idx;\n\n   idx.zone=node->Zone;\n   idx.net=node->Net;\n   idx.node=node->Node;\n   idx.point=node->Point;","long cmnl_nlGetHub(struct Node4D *node)\n{\n	struct cmnlIdx idx;\n\n   idx.zone=node->Zone;\n   idx.net=node->Net;\n   idx.node=node->Node;\n   idx.point=0;"),
(A,1,'a-hub',N,"	return(idx.hub);","	return(idx.hub ? idx.hub : -1);"),
(A,1,'a-miss',N,"		return(-1);\n		\n	return(idx.region);","		return(0);\n		\n	return(idx.region);"),
(A,1,'g-net',G,"idx.net=n4d.Net;","idx.net=n4d.Node;"),
(A,0,'nl-r1',L,"void ProcessList(","static void NewNode(osFile ifh,struct idx *idx,char *num)\n{\n	idx->node=atoi(num);\n	idx->point=0;\n	WriteIdx(ifh,idx);\n}\n\nvoid ProcessList(",L,"		if(strnicmp(buf,\"Pvt,\",4)==0)\n		{\n			idx.node=atoi(&buf[4]);\n			idx.point=0;\n			WriteIdx(ifh,&idx);\n		}\n","		if(strnicmp(buf,\"Pvt,\",4)==0)\n			NewNode(ifh,&idx,&buf[4]);\n"),
(A,0,'nl-r2',L,"		if(strnicmp(buf,\"Region,\",7)==0)","		else if(strnicmp(buf,\"Region,\",7)==0)"),
(A,0,'nl-r3',L,"	idx.zone=defzone;\n	idx.net=0;\n	idx.node=0;\n	idx.point=0;\n	idx.region=0;\n	idx.hub=0;\n	idx.offset=0;\n","	memset(&idx,0,sizeof(idx));\n	idx.zone=defzone;\n"),
(A,0,'nl-r4',L,"if(strnicmp(buf,\",\",1)==0)","if(buf[0]==',')"),
(A,0,'nl-r5',L,"	idx.offset=osFTell(nfh);	\n\n   while(osFGets(nfh,buf,500))\n   {\n","	for(;;)\n	{\n		idx.offset=osFTell(nfh);\n		if(!osFGets(nfh,buf,500)) break;\n",L,"		idx.offset=osFTell(nfh);	\n	}","	}"),
(A,0,'f-r1',C,"			found=TRUE;\n\n			if(cmnlidx->zone  != idx.zone)  found=FALSE;\n			if(cmnlidx->net   != idx.net)   found=FALSE;\n			if(cmnlidx->node  != idx.node)  found=FALSE;\n			if(cmnlidx->point != idx.point) found=FALSE;\n","			found=(cmnlidx->zone == idx.zone && cmnlidx->net == idx.net && cmnlidx->node == idx.node && cmnlidx->point == idx.point);\n"),
(A,0,'f-r2',C,"bool cmnlFindNL(","static bool same(struct cmnlIdx *a,struct idx *b)\n{\n	if(a->zone != b->zone) return(FALSE);\n	if(a->net != b->net) return(FALSE);\n	if(a->node != b->node) return(FALSE);\n	return a->point == b->point;\n}\n\nbool cmnlFindNL(",C,"			found=TRUE;\n\n			if(cmnlidx->zone  != idx.zone)  found=FALSE;\n			if(cmnlidx->net   != idx.net)   found=FALSE;\n			if(cmnlidx->node  != idx.node)  found=FALSE;\n			if(cmnlidx->point != idx.point) found=FALSE;\n","			found=same(cmnlidx,&idx);\n"),
(A,0,'f-r3',C,"		idx.offset=0;\n\n		while(!found && idx.offset != 0xffffffff)\n		{			\n","		do\n		{\n",C,"			if(idx.offset == 0xffffffff) found=FALSE;\n		}","			if(idx.offset == 0xffffffff) found=FALSE;\n		} while(!found && idx.offset != 0xffffffff);"),
(A,0,'a-r1',N,"   if(!cmnlFindNL(nlfh,config.cfg_Nodelist,&idx,NULL,0))\n		return(FALSE);\n		\n	return(TRUE);","   return cmnlFindNL(nlfh,config.cfg_Nodelist,&idx,NULL,0);"),
(A,0,'a-r2',N,"bool cmnl_nlCheckNode(","static void ask(struct cmnlIdx *idx,struct Node4D *node)\n{\n   idx->zone=node->Zone;\n   idx->net=node->Net;\n   idx->node=node->Node;\n   idx->point=node->Point;\n}\n\nbool cmnl_nlCheckNode(",N,"long cmnl_nlGetHub(struct Node4D *node)\n{\n	struct cmnlIdx idx;\n\n   idx.zone=node->Zone;\n   idx.net=node->Net;\n   idx.node=node->Node;\n   idx.point=node->Point;","long cmnl_nlGetHub(struct Node4D *node)\n{\n	struct cmnlIdx idx;\n\n   ask(&idx,node);"),
(A,0,'a-r3',N,"	return(idx.hub);","	long hub=idx.hub;\n	return(hub);"),
]
