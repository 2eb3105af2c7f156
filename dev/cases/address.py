N='shared/node4d.c'; P='crashmail/node4dpat.c'; O='oslib_linux/ospattern.c'
A='A25'
CASES=[
(A,1,'pt-zone-skip',P,"         if(node->Zone!=0)\n            if(NodeCompare(nodepat->Zone, node->Zone )!=0) return(1);\n\n         if(NodeCompare(nodepat->Net,  node->Net  )!=0) return(1);\n         if(NodeCompare(nodepat->Node, node->Node )!=0) return(1);\n         if(NodeCompare(nodepat->Point","         if(NodeCompare(nodepat->Net,  node->Net  )!=0) return(1);\n         if(NodeCompare(nodepat->Node, node->Node )!=0) return(1);\n         if(NodeCompare(nodepat->Point"),
(A,1,'pt-point0',P,"         if(NodeCompare(nodepat->Point,node->Point)!=0) return(1);","         if(node->Point!=0)\n            if(NodeCompare(nodepat->Point,node->Point)!=0) return(1);"),
(A,1,'pt-swap',P,"         if(NodeCompare(nodepat->Net,  node->Net  )!=0) return(1);\n         if(NodeCompare(nodepat->Node, node->Node )!=0) return(1);\n         if(NodeCompare(nodepat->Point,node->Point)!=0) return(1);","         if(NodeCompare(nodepat->Net,  node->Net  )!=0) return(1);\n         if(NodeCompare(nodepat->Node, node->Node )!=0) return(1);\n         if(NodeCompare(nodepat->Point,node->Node)!=0) return(1);"),
(A,1,'pt-region-net',P,"         if(NodeCompare(nodepat->Net,num)!=0) return(1);","         if(NodeCompare(nodepat->Net,node->Net)!=0) return(1);"),
(A,1,'pt-hub-notlisted',P,"         num=(*config.cfg_NodelistType->nlGetHub)(&n4d);\n\n         if(num == -1)\n            return(1);\n","         num=(*config.cfg_NodelistType->nlGetHub)(&n4d);\n"),
(A,1,'pt-hub-point',P,"\t\t\tCopy4D(&n4d,node);\n\t\t\tn4d.Point=0;\n         num=(*config.cfg_NodelistType->nlGetHub)(&n4d);","\t\t\tCopy4D(&n4d,node);\n         num=(*config.cfg_NodelistType->nlGetHub)(&n4d);"),
(A,1,'pt-hub-anynet',P,"         if(NodeCompare(nodepat->Net,node->Net)!=0) return(1);\n         if(NodeCompare(nodepat->Node,num)!=0) return(1);","         if(NodeCompare(nodepat->Node,num)!=0) return(1);"),
(A,1,'pt-node-nopoints',P,"         if(NodeCompare(nodepat->Net,  node->Net  )!=0) return(1);\n         if(NodeCompare(nodepat->Node, node->Node )!=0) return(1);\n         return(0);","         if(NodeCompare(nodepat->Net,  node->Net  )!=0) return(1);\n         if(NodeCompare(nodepat->Node, node->Node )!=0) return(1);\n         if(node->Point!=0) return(1);\n         return(0);"),
(A,1,'pt-closed',P,"      case PAT_REGION:\n         if(!nodelistopen)\n            return(1);","      case PAT_REGION:\n         if(!nodelistopen)\n            return(0);"),
(A,1,'pt-zonekind',P,"      case PAT_ZONE:\n         if(NodeCompare(nodepat->Zone,node->Zone)!=0) return(1);","      case PAT_ZONE:\n         if(node->Zone!=0)\n            if(NodeCompare(nodepat->Zone,node->Zone)!=0) return(1);"),
(A,0,'pt-r1',P,"      case PAT_ZONE:\n         if(NodeCompare(nodepat->Zone,node->Zone)!=0) return(1);\n         return(0);","      case PAT_ZONE:\n         return NodeCompare(nodepat->Zone,node->Zone);"),
(A,0,'pt-r2',P,"         if(NodeCompare(nodepat->Net,  node->Net  )!=0) return(1);\n         if(NodeCompare(nodepat->Node, node->Node )!=0) return(1);\n         return(0);","         if(NodeCompare(nodepat->Net,node->Net)!=0 || NodeCompare(nodepat->Node,node->Node)!=0) return(1);\n         return(0);"),
(A,0,'pt-r3',P,"\t\t\tCopy4D(&n4d,node);\n\t\t\tn4d.Point=0;\n         num=(*config.cfg_NodelistType->nlGetHub)(&n4d);","\t\t\tn4d=*node;\n\t\t\tn4d.Point=0;\n         num=(*config.cfg_NodelistType->nlGetHub)(&n4d);"),
(A,0,'pt-r4',P,"int Compare4DPat(struct","static int zonediff(struct Node4DPat *pat,struct Node4D *n)\n{\n   return n->Zone!=0 && NodeCompare(pat->Zone,n->Zone)!=0;\n}\n\nint Compare4DPat(struct",P,"      case PAT_NET:\n         if(node->Zone!=0)\n            if(NodeCompare(nodepat->Zone,node->Zone)!=0) return(1);\n","      case PAT_NET:\n         if(zonediff(nodepat,node)) return(1);\n"),
(A,0,'pt-r5',P,"   switch(nodepat->Type)\n   {\n      case PAT_PATTERN:\n         if(node->Zone!=0)\n            if(NodeCompare(nodepat->Zone, node->Zone )!=0) return(1);\n\n         if(NodeCompare(nodepat->Net,  node->Net  )!=0) return(1);\n         if(NodeCompare(nodepat->Node, node->Node )!=0) return(1);\n         if(NodeCompare(nodepat->Point,node->Point)!=0) return(1);\n         return(0);\n","   if(nodepat->Type==PAT_PATTERN)\n   {\n         if(node->Zone!=0)\n            if(NodeCompare(nodepat->Zone, node->Zone )!=0) return(1);\n\n         if(NodeCompare(nodepat->Net,  node->Net  )!=0) return(1);\n         if(NodeCompare(nodepat->Node, node->Node )!=0) return(1);\n         if(NodeCompare(nodepat->Point,node->Point)!=0) return(1);\n         return(0);\n   }\n   switch(nodepat->Type)\n   {\n"),
# NodeCompare
(A,1,'nc-long',P,"   if(buf[c]!=0)\n      return(1);\n","",),
(A,1,'nc-short',P,"      if(buf[c]==0) return(1);\n",""),
(A,1,'nc-hex',P,'sprintf(buf,"%u",num);','sprintf(buf,"%x",num);'),
(A,1,'nc-start',P,"   for(c=0;c<strlen(pat);c++)\n   {\n      if(pat[c]=='*') return(0);","   for(c=1;c<strlen(pat);c++)\n   {\n      if(pat[c]=='*') return(0);"),
(A,1,'nc-star',P,"      if(pat[c]=='*') return(0);","      if(pat[c]=='*' && c==0) return(0);"),
(A,1,'nc-idx',P,"if(pat[c]!=buf[c] && pat[c]!='?') return(1);","if(pat[c]!=buf[0] && pat[c]!='?') return(1);"),
(A,1,'nc-prefix',P,"   if(buf[c]!=0)\n      return(1);\n\n   return(0);","   if(buf[c]!=0 && c<2)\n      return(1);\n\n   return(0);"),
(A,0,'nc-r1',P,"   if(buf[c]!=0)\n      return(1);\n\n   return(0);","   return(buf[c]!=0);"),
(A,0,'nc-r2',P,"   for(c=0;c<strlen(pat);c++)\n   {\n      if(pat[c]=='*') return(0);\n      if(pat[c]!=buf[c] && pat[c]!='?') return(1);\n      if(buf[c]==0) return(1);\n   }","   for(c=0;pat[c]!=0;c++)\n   {\n      if(pat[c]=='*') return(0);\n      if(buf[c]==0) return(1);\n      if(pat[c]!='?' && pat[c]!=buf[c]) return(1);\n   }"),
(A,0,'nc-r3',P,"   uint8_t c;\n   sprintf(buf,\"%u\",num);","   uint8_t c=0;\n   snprintf(buf,sizeof(buf),\"%u\",num);",P,"   for(c=0;c<strlen(pat);c++)\n   {\n      if(pat[c]=='*') return(0);\n      if(pat[c]!=buf[c] && pat[c]!='?') return(1);\n      if(buf[c]==0) return(1);\n   }","   while(pat[c])\n   {\n      if(pat[c]=='*') return(0);\n      if(pat[c]!=buf[c] && pat[c]!='?') return(1);\n      if(buf[c]==0) return(1);\n      c++;\n   }"),
# names
(A,1,'om-end',O,"   if(str[c]!=0)\n      return(FALSE);\n",""),
(A,1,'om-case',O,"tolower(pattern[c])!=tolower(str[c])","pattern[c]!=tolower(str[c])"),
(A,1,'om-q0',O,"      if(str[c] == 0)\n         return(FALSE);\n\n      if(pattern[c]!='?'","      if(str[c] == 0 && pattern[c]!='?')\n         return(FALSE);\n\n      if(pattern[c]!='?'"),
(A,1,'om-staronly',O,"      if(pattern[c]=='*')\n         return(TRUE);","      if(pattern[c]=='*' && pattern[c+1]==0)\n         return(TRUE);"),
(A,1,'om-stareq',O,"      if(pattern[c]=='*')\n         return(TRUE);","      if(pattern[c]=='*' && str[c]!=0)\n         return(TRUE);"),
(A,0,'om-r1',O,"   if(str[c]!=0)\n      return(FALSE);\n\n   return(TRUE);","   return(str[c]==0);"),
(A,0,'om-r2',O,"   int c;\n\n   for(c=0;pattern[c];c++)\n   {\n      if(pattern[c]=='*')\n         return(TRUE);\n\n      if(str[c] == 0)\n         return(FALSE);\n\n      if(pattern[c]!='?' && tolower(pattern[c])!=tolower(str[c]))\n         return(FALSE);\n   }\n\n   if(str[c]!=0)","   while(*pattern)\n   {\n      if(*pattern=='*')\n         return(TRUE);\n\n      if(*str == 0)\n         return(FALSE);\n\n      if(*pattern!='?' && tolower(*pattern)!=tolower(*str))\n         return(FALSE);\n      pattern++;\n      str++;\n   }\n\n   if(*str!=0)"),
(A,0,'om-r3',O,"   int c;\n\n   for(c=0;pattern[c];c++)\n   {\n      if(pattern[c]=='*')\n         return(TRUE);\n\n      if(str[c] == 0)\n         return(FALSE);\n\n      if(pattern[c]!='?' && tolower(pattern[c])!=tolower(str[c]))\n         return(FALSE);\n   }\n","   int c;\n\n   for(c=0;pattern[c];c++)\n   {\n      if(pattern[c]=='*')\n         return(TRUE);\n\n      if(str[c] == 0 || (pattern[c]!='?' && tolower(pattern[c])!=tolower(str[c])))\n         return(FALSE);\n   }\n"),
# expansion
(A,1,'ex-zone',P,"         sendto->Net = dest->Zone;","         sendto->Net = dest->Net;"),
(A,1,'ex-node-point',P,"         sendto->Node = dest->Node;\n         sendto->Point = 0;","         sendto->Node = dest->Node;\n         sendto->Point = dest->Point;"),
(A,1,'ex-wild',P,"sendto->Net   = iswildcard(temproute->Net) ","sendto->Net   = iswildcard(temproute->Node) "),
(A,1,'ex-regionm1',P,"      if(region == -1) region=0;\n",""),
(A,1,'ex-hubm1',P,"      if(hub == -1) hub=0;\n",""),
(A,1,'ex-regionfb',P,"   if(region == 0) region=dest->Net;","   if(region == 0) region=dest->Zone;"),
(A,1,'ex-copyback',P,"\t\tCopy4D(&n4d,dest);\n\t\tn4d.Point=0;\n\n      if(temproute->Type == PAT_REGION)","\t\tCopy4D(&n4d,dest);\n\n      if(temproute->Type == PAT_REGION)"),
(A,1,'ex-net',P,"         sendto->Net = dest->Net;\n         sendto->Node = 0;\n         sendto->Point = 0;\n         break;\n\n      case PAT_HUB:","         sendto->Net = dest->Net;\n         sendto->Node = dest->Node;\n         sendto->Point = 0;\n         break;\n\n      case PAT_HUB:"),
(A,1,'ex-iswild',P,"      if(str[c]=='*' || str[c]=='?') return(TRUE);","      if(str[c]=='*') return(TRUE);"),
(A,1,'ex-iswild2',P,"   for(c=0;c<strlen(str);c++)\n      if(str[c]=='*' || str[c]=='?') return(TRUE);","   if(str[0]=='*' || str[0]=='?') return(TRUE);"),
(A,0,'ex-r1',P,"   for(c=0;c<strlen(str);c++)\n      if(str[c]=='*' || str[c]=='?') return(TRUE);\n\n   return(FALSE);","   return(strchr(str,'*')!=NULL || strchr(str,'?')!=NULL);"),
(A,0,'ex-r2',P,"         sendto->Zone = dest->Zone;\n         sendto->Net = dest->Net;\n         sendto->Node = dest->Node;\n         sendto->Point = 0;","         Copy4D(sendto,dest);\n         sendto->Point = 0;"),
(A,0,'ex-r3',P,"         sendto->Zone  = iswildcard(temproute->Zone)  ? dest->Zone  : atoi(temproute->Zone);","         if(iswildcard(temproute->Zone))\n            sendto->Zone = dest->Zone;\n         else\n            sendto->Zone = atoi(temproute->Zone);"),
(A,0,'ex-r4',P,"void ExpandNodePat(","static uint16_t part(char *pat,uint16_t num)\n{\n   return iswildcard(pat) ? num : atoi(pat);\n}\n\nvoid ExpandNodePat(",P,"         sendto->Zone  = iswildcard(temproute->Zone)  ? dest->Zone  : atoi(temproute->Zone);\n         sendto->Net   = iswildcard(temproute->Net)   ? dest->Net   : atoi(temproute->Net);","         sendto->Zone  = part(temproute->Zone,dest->Zone);\n         sendto->Net   = part(temproute->Net,dest->Net);"),
# reading
(A,1,'rd-dup',N,"         if(GotNet || GotNode) return(FALSE);\n","         if(GotNode) return(FALSE);\n"),
(A,1,'rd-order',N,"         if(GotZone || GotNet || GotNode) return(FALSE);","         if(GotZone) return(FALSE);"),
(A,1,'rd-last',N,"	   if(GotZone && !GotNet)  node->Net=val;\n   	else if(GotNode)        node->Point=val;","   	if(GotNode)        node->Point=val;"),
(A,1,'rd-reset',N,"				val=0;\n				GotVal=TRUE;","				if(!GotNet) val=0;\n				GotVal=TRUE;"),
(A,1,'rd-gotval',N,"			if(GotVal) node->Net=val;\n\n         GotNet=TRUE;\n			GotVal=FALSE;","			if(GotVal) node->Net=val;\n\n         GotNet=TRUE;"),
(A,1,'rd-char',N,"		else return(FALSE);\n	}\n\n	if(GotVal)","		else if(buf[c]!=' ') return(FALSE);\n	}\n\n	if(GotVal)"),
(A,1,'rd-tpl',N,"	Copy4D(node,tpl);\n","	node->Zone=tpl->Zone;\n	node->Net=tpl->Net;\n	node->Node=tpl->Node;\n"),
(A,1,'rd-digit',N,"buf[c]>='0' && buf[c]<='9'","buf[c]>'0' && buf[c]<='9'"),
(A,0,'rd-r1',N,"         val*=10;\n         val+=buf[c]-'0';","         val=val*10+(buf[c]-'0');"),
(A,0,'rd-r2',N,"	for(c=0;c<strlen(buf);c++)\n	{\n		if(buf[c]==':')","	for(c=0;buf[c];c++)\n	{\n		if(buf[c]==':')"),
(A,0,'rd-r3',N,"			if(!GotVal)\n			{\n				val=0;\n				GotVal=TRUE;\n			}\n\n         val*=10;\n         val+=buf[c]-'0';","			if(GotVal)\n			{\n				val=val*10+buf[c]-'0';\n			}\n			else\n			{\n				val=buf[c]-'0';\n				GotVal=TRUE;\n			}"),
(A,1,'rp-point',P,"      strcpy(node->Node,temp);\n      strcpy(node->Point,\"0\");","      strcpy(node->Node,temp);"),
(A,1,'rp-stale',P,"         strcpy(node->Net,temp);\n         GotNet=TRUE;\n			tempc=0;\n			temp[0]=0;\n		}\n		else if(buf[c]=='.')","         strcpy(node->Net,temp);\n         GotNet=TRUE;\n		}\n		else if(buf[c]=='.')"),
(A,1,'rp-net',P,"   if(GotZone && !GotNet)\n   {\n      strcpy(node->Net,temp);\n   }","   if(GotZone && !GotNet)\n   {\n      strcpy(node->Node,temp);\n   }"),
(A,1,'rp-q',P,"buf[c]=='*' || buf[c]=='?')\n		{\n         if(tempc<9)\n         {\n            temp[tempc++]=buf[c];\n            temp[tempc]=0;\n         }\n		}\n		else return(FALSE);\n	}\n\n   if(GotZone","buf[c]=='*')\n		{\n         if(tempc<9)\n         {\n            temp[tempc++]=buf[c];\n            temp[tempc]=0;\n         }\n		}\n		else if(buf[c]!='?') return(FALSE);\n	}\n\n   if(GotZone"),
(A,1,'wd-kind',P,"   else if(strnicmp(buf,\"HUB \",4)==0)\n   {\n      node->Type=PAT_HUB;","   else if(strnicmp(buf,\"HUB \",4)==0)\n   {\n      node->Type=PAT_NODE;"),
(A,1,'wd-off',P,"      res=rawParse4DPat(&buf[7],node);","      res=rawParse4DPat(&buf[6],node);"),
(A,1,'wd-zone',P,"      strcpy(node->Zone,node->Node);\n",""),
(A,1,'wd-dest',P,"   else if(stricmp(buf,\"HUB\")==0)\n   {\n      node->Type=PAT_HUB;","   else if(stricmp(buf,\"HUB\")==0)\n   {\n      node->Type=PAT_NET;"),
(A,1,'wd-true',P,"      node->Type=PAT_NET;\n      res=rawParse4DPat(&buf[4],node);","      node->Type=PAT_NET;\n      rawParse4DPat(&buf[4],node);\n      res=TRUE;"),
(A,1,'wd-hubnode',P,"      node->Type=PAT_HUB;\n      res=rawParse4DPat(&buf[4],node);\n      node->Point[0]=0;","      node->Type=PAT_HUB;\n      res=rawParse4DPat(&buf[4],node);\n      node->Node[0]=0;\n      node->Point[0]=0;"),
(A,0,'wd-r1',P,"   bool res;\n\n   node->Zone[0]=0;\n   node->Net[0]=0;\n   node->Node[0]=0;\n   node->Point[0]=0;\n\n   if(strnicmp","   bool res;\n\n   if(strnicmp"),
(A,1,'pr-order',N,"      sprintf(dest,\"%u:%u/%u\",n4d->Zone,\n                                 n4d->Net,\n                                 n4d->Node);","      sprintf(dest,\"%u:%u/%u\",n4d->Zone,\n                                 n4d->Node,\n                                 n4d->Net);"),
(A,1,'pr-point',N,"   if(n4d->Point)\n      sprintf","   if(n4d->Point && n4d->Node)\n      sprintf"),
(A,1,'c2-net',P,"      if(NodeCompare(nodepat->Net,  net )!=0) return(1);\n      if(NodeCompare(nodepat->Node, node)!=0) return(1);","      if(NodeCompare(nodepat->Node, node)!=0) return(1);"),
(A,0,'c2-r',P,"      if(NodeCompare(nodepat->Net,  net )!=0) return(1);\n      if(NodeCompare(nodepat->Node, node)!=0) return(1);\n      return(0);","      return NodeCompare(nodepat->Net,net)!=0 || NodeCompare(nodepat->Node,node)!=0;"),
]
