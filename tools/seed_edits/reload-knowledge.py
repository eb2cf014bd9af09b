sub('src/ml/neural_network.hpp','''                headNode->markUnsaved();
                headNode->loadKnowledge(fullKnowledgePath);''','''                headNode->loadKnowledge(fullKnowledgePath);''')
