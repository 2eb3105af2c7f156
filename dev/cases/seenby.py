H='crashmail/handle.c'; P='crashmail/pkt.c'; M='crashmail/memmessage.c'
CASES=[
('A24',1,'own-before-remove',H,'''   /* Remove nodes specified in config from seen-by and path */
''','''   if(temparea->Aka->Node.Point == 0)
   {
      if(!mmAddNodes2DList(&mm->SeenBy,temparea->Aka->Node.Net,temparea->Aka->Node.Node))
         return(FALSE);
   }
''',H,'''   /* Add own node to seen-by */

   if(temparea->Aka->Node.Point == 0)
   {
      if(!mmAddNodes2DList(&mm->SeenBy,temparea->Aka->Node.Net,temparea->Aka->Node.Node))
         return(FALSE);
   }
''',''),
('A24',1,'path-not-for-exported',H,'''   if(temparea->Aka->Node.Point == 0 || (config.cfg_Flags & CFG_PATH3D))
   {
      if(!AddNodePath(&mm->Path,&temparea->Aka->Node))
         return(FALSE);
   }

   /* Dupecheck */''','''   if((temparea->Aka->Node.Point == 0 || (config.cfg_Flags & CFG_PATH3D)) && !(mm->Flags & MMFLAG_EXPORTED))
   {
      if(!AddNodePath(&mm->Path,&temparea->Aka->Node))
         return(FALSE);
   }

   /* Dupecheck */'''),
('A24',1,'points-listed',H,'''      if(temptnode->ConfigNode->Node.Point == 0 && temparea->Aka->Node.Zone == temptnode->ConfigNode->Node.Zone)
         if(!(temptnode''','''      if(temparea->Aka->Node.Zone == temptnode->ConfigNode->Node.Zone)
         if(!(temptnode'''),
('A24',1,'first-link-only',H,'''               if(!mmAddNodes2DList(&mm->SeenBy,temptnode->ConfigNode->Node.Net,temptnode->ConfigNode->Node.Node))
                  return(FALSE);
            }''','''               if(!mmAddNodes2DList(&mm->SeenBy,temptnode->ConfigNode->Node.Net,temptnode->ConfigNode->Node.Node))
                  return(FALSE);
               if(temptnode->ConfigNode->IsInSeenBy) break;
            }'''),
('A24',1,'skip-readonly',H,'''            if(!(temptnode->Flags & TOSSNODE_WRITEONLY))
            {
               if(!mmAdd''','''            if(!(temptnode->Flags & (TOSSNODE_WRITEONLY|TOSSNODE_READONLY)))
            {
               if(!mmAdd'''),
('A24',1,'net-of-other',H,'''               if(!mmAddNodes2DList(&mm->SeenBy,temptnode->ConfigNode->Node.Net,temptnode->ConfigNode->Node.Node))''','''               if(!mmAddNodes2DList(&mm->SeenBy,temparea->Aka->Node.Net,temptnode->ConfigNode->Node.Node))'''),
('A24',1,'zone-strip-late',H,'''   if(temparea->Aka->Node.Zone != mm->PktOrig.Zone && mm->SeenBy.First)
      jbFreeList(&mm->SeenBy);
''','',H,'''   if(!mmSortNodes2D(&mm->SeenBy))
      return(FALSE);

	/* Filter */''','''   if(temparea->Aka->Node.Zone != mm->PktOrig.Zone && mm->SeenBy.First)
      jbFreeList(&mm->SeenBy);

   if(!mmSortNodes2D(&mm->SeenBy))
      return(FALSE);

	/* Filter */'''),
('A24',1,'zone-strip-dest',H,'''   if(temparea->Aka->Node.Zone != mm->PktOrig.Zone && mm->SeenBy.First)''','''   if(temparea->Aka->Node.Zone != mm->PktDest.Zone && mm->SeenBy.First)'''),
('A24',1,'rescan-no-path',H,'''   if(temparea->Aka->Node.Point == 0 || (config.cfg_Flags & CFG_PATH3D))
   {
      if(!AddNodePath(&mm->Path,&temparea->Aka->Node))
         return(FALSE);
   }

   if(!mmSortNodes2D(&mm->SeenBy))
      return(FALSE);

   if(!WriteEchoMail''','''   if(temparea->Aka->Node.Point == 0 && (config.cfg_Flags & CFG_PATH3D))
   {
      if(!AddNodePath(&mm->Path,&temparea->Aka->Node))
         return(FALSE);
   }

   if(!mmSortNodes2D(&mm->SeenBy))
      return(FALSE);

   if(!WriteEchoMail'''),
('A24',1,'tiny-ignored-zone',P,'''   if(node->Node.Zone != aka->Node.Zone || (node->Flags & NODE_TINYSEENBY))''','''   if(node->Node.Zone != From4D->Zone || (node->Flags & NODE_TINYSEENBY))'''),
('A24',1,'tiny-no-own',P,'''      if(aka->Node.Point == 0)
         if(!mmAdd''','''      if(aka->Node.Point == 0 && !(node->Flags & NODE_TINYSEENBY))
         if(!mmAdd'''),
('A24',1,'noseenby-nopath',P,'''   if(!WritePath(pkt,&mm->Path))
      return(FALSE);
''','''   if(!(node->Flags & NODE_NOSEENBY) && !WritePath(pkt,&mm->Path))
      return(FALSE);
'''),
('A24',1,'add2d-node-only',M,'''         if(tmplist->Net[num]==net && tmplist->Node[num]==node) return(TRUE);''','''         if(tmplist->Node[num]==node) return(TRUE);'''),
('A24',1,'pathtail-no-node',H,'''		if(n4d.Net == node->Net && n4d.Node == node->Node && n4d.Point == node->Point)''','''		if(n4d.Net == node->Net && n4d.Node == node->Node)'''),
('A24',0,'helper-addown',H,'''bool HandleEchomail(struct MemMessage *mm)
{''','''static bool AddOwn(struct MemMessage *mm,struct Area *a)
{
   if(a->Aka->Node.Point == 0)
      if(!mmAddNodes2DList(&mm->SeenBy,a->Aka->Node.Net,a->Aka->Node.Node))
         return(FALSE);
   if(a->Aka->Node.Point != 0 && !(config.cfg_Flags & CFG_PATH3D)) return(TRUE);
   return AddNodePath(&mm->Path,&a->Aka->Node);
}

bool HandleEchomail(struct MemMessage *mm)
{''',H,'''   if(temparea->Aka->Node.Point == 0)
   {
      if(!mmAddNodes2DList(&mm->SeenBy,temparea->Aka->Node.Net,temparea->Aka->Node.Node))
         return(FALSE);
   }

   /* Add own node to path */

   if(temparea->Aka->Node.Point == 0 || (config.cfg_Flags & CFG_PATH3D))
   {
      if(!AddNodePath(&mm->Path,&temparea->Aka->Node))
         return(FALSE);
   }
''','''   if(!AddOwn(mm,temparea)) return(FALSE);
'''),
('A24,A07',0,'loop-continue',H,'''   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
      if(temptnode->ConfigNode->Node.Point == 0 && temparea->Aka->Node.Zone == temptnode->ConfigNode->Node.Zone)
         if(!(temptnode->ConfigNode->Flags & NODE_PASSIVE))
            if(!(temptnode->Flags & TOSSNODE_WRITEONLY))
            {
               if(!mmAddNodes2DList(&mm->SeenBy,temptnode->ConfigNode->Node.Net,temptnode->ConfigNode->Node.Node))
                  return(FALSE);
            }
''','''   temptnode=(struct TossNode *)temparea->TossNodes.First;
   while(temptnode)
   {
      struct ConfigNode *cn=temptnode->ConfigNode;
      struct TossNode *next=temptnode->Next;

      if(cn->Node.Point != 0 || temparea->Aka->Node.Zone != cn->Node.Zone || (cn->Flags & NODE_PASSIVE) || (temptnode->Flags & TOSSNODE_WRITEONLY))
      {
         temptnode=next;
         continue;
      }
      if(!mmAddNodes2DList(&mm->SeenBy,cn->Node.Net,cn->Node.Node))
         return(FALSE);
      temptnode=next;
   }
'''),
]
