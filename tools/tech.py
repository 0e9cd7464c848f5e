# technique per property: X (emitted code), G (compiler), B (both)
for i in ["C07","C08","C09","C10"]: tech[i]=G
for i in ["C04","C06","C11","C13","C16","C28"]: tech[i]=B
