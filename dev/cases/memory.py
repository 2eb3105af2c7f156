H='crashmail/handle.c'; P='crashmail/pkt.c'; O='crashmail/outbound.c'; A='crashmail/areafix.c'; M='crashmail/mb_msg.c'; C='crashmail/config.c'
CASES = [
 ('A20', 1, 'mem-noroute', H, '''   if(!tmproute)
   {
      Print4D(&mm->OrigNode,buf);
      LogWrite(1,TOSSINGERR,"Can't send receipt''', '''   if(!tmproute && mm->OrigNode.Point)
   {
      Print4D(&mm->OrigNode,buf);
      LogWrite(1,TOSSINGERR,"Can't send receipt'''),
 ('A20', 1, 'mem-next-after-free', O, '''		fe=fe2;
	}
}''', '''		fe=fe->Next;
	}
}'''),
 ('A20', 1, 'mem-areafix-route', A, '''            jbFreeList(&node->RemoteAFList);
            continue;
''', '''            jbFreeList(&node->RemoteAFList);
'''),
 ('A20', 1, 'mem-packer', O, '''      if(cnode && cnode->Packer)''', '''      if(cnode)'''),
 ('A20', 1, 'mem-unknown-aka', C, '''         if(!tmpaka)
         {
            sprintf(cfgerr,"Unconfigured AKA \\"%s\\"",buf2);
            osClose(cfgfh);
            return(FALSE);
         }
''', '''         if(!tmpaka && cfg->AkaList.First)
         {
            sprintf(cfgerr,"Unconfigured AKA \\"%s\\"",buf2);
         }
'''),
 ('A20', 0, 'r-mem-swap', H, '''   if(!tmproute)
   {
      Print4D(&mm->OrigNode,buf);
      LogWrite(1,TOSSINGERR,"Can't send receipt''', '''   if(tmproute == NULL)
   {
      Print4D(&mm->OrigNode,buf);
      LogWrite(1,TOSSINGERR,"Can't send receipt'''),
 ('A20', 0, 'r-mem-while', O, '''   fe=(struct osFileEntry *)arclist->First;

	while(fe)
	{
		fe2=fe->Next;
''', '''	for(fe=(struct osFileEntry *)arclist->First;fe;fe=fe2)
	{
		fe2=fe->Next;
''', O, '''		fe=fe2;
	}
}''', '''	}
}'''),
]
